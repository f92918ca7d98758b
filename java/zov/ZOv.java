package zov;

import java.math.BigInteger;
import java.util.ArrayList;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** BigInteger implementations of the operators of spec/Z.tla. */
public class ZOv {
  static BigInteger b(Value x) {
    return ((ZValue) x).v;
  }
  static int i(Value x) {
    return ((IntValue) x).val;
  }
  static ZValue z(BigInteger x) {
    return new ZValue(x);
  }
  static Value bool(boolean x) {
    return x ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  @TLAPlusOperator(identifier = "Z", module = "Z", warn = false)
  public static Value ofInt(Value a) { return z(BigInteger.valueOf(i(a))); }

  @TLAPlusOperator(identifier = "ZInt", module = "Z", warn = false)
  public static Value toInt(Value a) { return IntValue.gen(b(a).intValueExact()); }

  @TLAPlusOperator(identifier = "++", module = "Z", warn = false)
  public static Value add(Value a, Value c) { return z(b(a).add(b(c))); }

  @TLAPlusOperator(identifier = "--", module = "Z", warn = false)
  public static Value sub(Value a, Value c) { return z(b(a).subtract(b(c))); }

  @TLAPlusOperator(identifier = "**", module = "Z", warn = false)
  public static Value mul(Value a, Value c) {
    BigInteger x = b(a), y = b(c);
    if (y.signum() > 0 && y.bitCount() == 1) return z(x.shiftLeft(y.bitLength() - 1));
    return z(x.multiply(y));
  }

  static void positive(BigInteger y) {
    if (y.signum() <= 0) throw new RuntimeException("Z: divisor must be positive");
  }

  @TLAPlusOperator(identifier = "//", module = "Z", warn = false)
  public static Value div(Value a, Value c) {
    BigInteger x = b(a), y = b(c);
    positive(y);
    if (y.bitCount() == 1) return z(x.shiftRight(y.bitLength() - 1));
    BigInteger[] qr = x.divideAndRemainder(y);
    return z(qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0]);
  }

  @TLAPlusOperator(identifier = "%%", module = "Z", warn = false)
  public static Value rem(Value a, Value c) {
    positive(b(c));
    return z(b(a).mod(b(c)));
  }

  @TLAPlusOperator(identifier = "\\prec", module = "Z", warn = false)
  public static Value lt(Value a, Value c) { return bool(b(a).compareTo(b(c)) < 0); }

  @TLAPlusOperator(identifier = "\\preceq", module = "Z", warn = false)
  public static Value le(Value a, Value c) { return bool(b(a).compareTo(b(c)) <= 0); }

  static void nonneg(int n) {
    if (n < 0) throw new RuntimeException("Z: negative exponent");
  }

  @TLAPlusOperator(identifier = "ZPow2", module = "Z", warn = false)
  public static Value pow2(Value n) {
    nonneg(i(n));
    return z(BigInteger.ONE.shiftLeft(i(n)));
  }

  @TLAPlusOperator(identifier = "ZPow", module = "Z", warn = false)
  public static Value pow(Value a, Value n) {
    nonneg(i(n));
    return z(b(a).pow(i(n)));
  }

  @TLAPlusOperator(identifier = "ZOdd", module = "Z", warn = false)
  public static Value odd(Value a) { return bool(b(a).testBit(0)); }

  @TLAPlusOperator(identifier = "ZBits", module = "Z", warn = false)
  public static Value bits(Value a) { return IntValue.gen(b(a).bitLength()); }

  @TLAPlusOperator(identifier = "ZTz", module = "Z", warn = false)
  public static Value tz(Value a) { return IntValue.gen(b(a).getLowestSetBit()); }

  @TLAPlusOperator(identifier = "ZOr", module = "Z", warn = false)
  public static Value or(Value a, Value c) { return z(b(a).or(b(c))); }

  @TLAPlusOperator(identifier = "ZDigits", module = "Z", warn = false)
  public static Value digits(Value a) {
    BigInteger x = b(a);
    if (x.signum() == 0) return new TupleValue(new Value[0]);
    String s = x.toString();
    Value[] r = new Value[s.length()];
    for (int k = 0; k < r.length; k++) r[k] = IntValue.gen(s.charAt(k) - '0');
    return new TupleValue(r);
  }

  @TLAPlusOperator(identifier = "ZOfDigits", module = "Z", warn = false)
  public static Value ofDigits(Value ds, Value base) {
    Value[] d = ((TupleValue) ds.toTuple()).elems;
    int bs = i(base);
    if (d.length == 0) return z(BigInteger.ZERO);
    StringBuilder sb = new StringBuilder(d.length);
    for (Value x : d) sb.append(Character.forDigit(i(x), bs));
    return z(new BigInteger(sb.toString(), bs));
  }
}
