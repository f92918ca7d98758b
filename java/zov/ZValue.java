package zov;
import java.math.BigInteger;
import tlc2.value.*;
import tlc2.value.impl.*;
import tlc2.util.FP64;
public class ZValue extends Value {
  public final BigInteger v;
  public ZValue(BigInteger v){this.v=v;}
  public byte getKind(){return USERVALUE;}
  public String getKindString(){return "Z integer";}
  public int compareTo(Object o){ if(!(o instanceof ZValue))throw new RuntimeException("Z compared with "+o); return v.compareTo(((ZValue)o).v);}
  public boolean equals(Object o){ if(!(o instanceof ZValue))throw new RuntimeException("Z compared with "+o); return v.equals(((ZValue)o).v);}
  public boolean member(Value x){throw new RuntimeException("member on Z");}
  public boolean isFinite(){throw new RuntimeException("isFinite on Z");}
  public Value takeExcept(ValueExcept e){if(e.idx<e.path.length)throw new RuntimeException("EXCEPT into a Z");return (Value)e.value;}
  public Value takeExcept(ValueExcept[] e){Value r=this;for(ValueExcept x:e)r=r.takeExcept(x);return r;}
  public int size(){throw new RuntimeException();}
  public boolean mutates(){return false;}
  public boolean isNormalized(){return true;}
  public Value normalize(){return this;}
  public boolean isDefined(){return true;}
  public IValue deepCopy(){return this;}
  public boolean assignable(Value x){return x instanceof ZValue && v.equals(((ZValue)x).v);}
  public long fingerPrint(long fp){ fp=FP64.Extend(fp,(int)77); byte[] b=v.toByteArray(); for(byte x:b) fp=FP64.Extend(fp,(int)x); return fp;}
  public IValue permute(IMVPerm p){return this;}
  public StringBuffer toString(StringBuffer sb,int o,boolean s){return sb.append(v.toString());}
}
