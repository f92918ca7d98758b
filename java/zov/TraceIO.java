package zov;

import java.io.BufferedReader;
import java.io.IOException;
import java.math.BigInteger;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.ArrayList;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;

/**
 * Reads recorded traces.  One event per line, "key=value" fields separated by blanks:
 * #hex -> Z, "hh.hh.hh (hex code points after a quote) -> sequence of Int, [v,v,..] -> sequence,
 * decimal -> Int, anything else -> string.
 */
public class TraceIO {
  static Value val(String s) {
    char c = s.isEmpty() ? ' ' : s.charAt(0);
    if (c == '#') return new ZValue(s.charAt(1) == '-' ? new BigInteger(s.substring(2), 16).negate() : new BigInteger(s.substring(1), 16));
    if (c == '"') {
      if (s.length() == 1) return new TupleValue(new Value[0]);
      String[] p = s.substring(1).split("\\.");
      Value[] r = new Value[p.length];
      for (int k = 0; k < p.length; k++) r[k] = IntValue.gen(Integer.parseInt(p[k], 16));
      return new TupleValue(r);
    }
    if (c == '[') {
      String in = s.substring(1, s.length() - 1);
      if (in.isEmpty()) return new TupleValue(new Value[0]);
      String[] p = in.split(",");
      Value[] r = new Value[p.length];
      for (int k = 0; k < p.length; k++) r[k] = val(p[k]);
      return new TupleValue(r);
    }
    if (c == '~') return new StringValue(s.substring(1).replace('_', ' '));
    if (c == '-' || (c >= '0' && c <= '9')) return IntValue.gen(Integer.parseInt(s));
    return new StringValue(s);
  }

  @TLAPlusOperator(identifier = "LoadTrace", module = "TraceIO", warn = false)
  public static Value load(Value path) throws IOException {
    ArrayList<Value> out = new ArrayList<>();
    try (BufferedReader r = Files.newBufferedReader(Paths.get(((StringValue) path).val.toString()))) {
      String line;
      while ((line = r.readLine()) != null) {
        if (line.isEmpty()) continue;
        String[] f = line.split(" ");
        UniqueString[] names = new UniqueString[f.length];
        Value[] vals = new Value[f.length];
        for (int k = 0; k < f.length; k++) {
          int eq = f[k].indexOf('=');
          names[k] = UniqueString.uniqueStringOf(f[k].substring(0, eq));
          vals[k] = val(f[k].substring(eq + 1));
        }
        RecordValue rec = new RecordValue(names, vals, false);
        rec.normalize();
        out.add(rec);
      }
    }
    return new TupleValue(out.toArray(new Value[0]));
  }

  static final java.util.HashMap<String, java.io.PrintWriter> files = new java.util.HashMap<>();

  static String text(String key, Value v) {
    if (v instanceof ZValue) {
      BigInteger z = ((ZValue) v).v;
      return z.signum() < 0 ? "#-" + z.negate().toString(16) : "#" + z.toString(16);
    }
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      return key.equals("err") || s.indexOf(' ') >= 0 ? "~" + s.replace(' ', '_') : s;
    }
    if (v instanceof IntValue) return v.toString();
    TupleValue t = (TupleValue) v.toTuple();
    StringBuilder b = new StringBuilder();
    boolean codes = key.equals("s") || key.equals("db") || key.equals("t");
    for (int k = 0; k < t.elems.length; k++) {
      if (k > 0) b.append(codes ? '.' : ',');
      b.append(codes ? Integer.toHexString(((IntValue) t.elems[k]).val) : text("", t.elems[k]));
    }
    return codes ? "\"" + b : "[" + b + "]";
  }

  static void fields(StringBuilder b, Value v) {
    RecordValue r = (RecordValue) v.toRcd();
    r.normalize();
    for (int k = 0; k < r.names.length; k++)
      if (!r.names[k].toString().equals("op")) b.append(r.names[k].toString()).append('=').append(text(r.names[k].toString(), r.values[k])).append(' ');
  }

  @TLAPlusOperator(identifier = "Emit", module = "TraceIO", warn = false)
  public static synchronized Value emit(Value path, Value in, Value out) throws IOException {
    String p = ((StringValue) path).val.toString();
    java.io.PrintWriter w = files.get(p);
    if (w == null) files.put(p, w = new java.io.PrintWriter(Files.newBufferedWriter(Paths.get(p))));
    StringBuilder b = new StringBuilder();
    RecordValue r = (RecordValue) in.toRcd();
    b.append("op=").append(text("op", (Value) r.select(new StringValue("op")))).append(' ');
    fields(b, in);
    b.append("| ");
    fields(b, out);
    w.println(b.toString().trim());
    w.flush();
    return BoolValue.ValTrue;
  }
}
