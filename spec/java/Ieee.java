import java.util.Arrays;
import tlc2.value.impl.*;
import util.UniqueString;

/** Evaluates the operators of Ieee.tla. */
public class Ieee {
  static double d(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    return Double.longBitsToDouble(((long) ((IntValue) e[0]).val << 32) | (((IntValue) e[1]).val & 0xffffffffL));
  }
  static Value v(double x) {
    long b = Double.doubleToRawLongBits(x);
    return new TupleValue(new Value[] {IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
  }
  static int i(Value v) { return ((IntValue) v).val; }
  static String s(Value v) { return ((StringValue) v).val.toString(); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value FDec(Value a) { return v(Double.parseDouble(s(a))); }
  public static Value FInt(Value a) { return v(i(a)); }
  public static Value FRatio(Value a, Value c) { return v((double) i(a) / (double) i(c)); }
  public static Value FAdd(Value a, Value c) { return v(d(a) + d(c)); }
  public static Value FSub(Value a, Value c) { return v(d(a) - d(c)); }
  public static Value FMul(Value a, Value c) { return v(d(a) * d(c)); }
  public static Value FDiv(Value a, Value c) { return v(d(a) / d(c)); }
  public static Value FNeg(Value a) { return v(-d(a)); }
  public static Value FAbs(Value a) { return v(Math.abs(d(a))); }
  public static Value FSqrt(Value a) { return v(Math.sqrt(d(a))); }
  public static Value FTan(Value a) { return v(StrictMath.tan(d(a))); }
  public static Value FSin(Value a) { return v(StrictMath.sin(d(a))); }
  public static Value FCos(Value a) { return v(StrictMath.cos(d(a))); }
  public static Value FPow(Value a, Value c) { return v(StrictMath.pow(d(a), d(c))); }
  public static Value FLog10(Value a) { return v(StrictMath.log10(d(a))); }
  public static Value FFloor(Value a) { return v(Math.floor(d(a))); }
  public static Value FRound32(Value a) { return v((double) (float) d(a)); }
  public static Value FScale(Value a, Value n) { return v(d(a) * Math.pow(2.0, i(n))); }
  public static Value FLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value FLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value FIsNaN(Value a) { return b(Double.isNaN(d(a))); }
  public static Value FIsFinite(Value a) { return b(!Double.isNaN(d(a)) && !Double.isInfinite(d(a))); }
  public static Value FSameBits(Value a, Value c) {
    return b(Double.doubleToRawLongBits(d(a)) == Double.doubleToRawLongBits(d(c)));
  }
  public static Value FToInt(Value a) {
    double x = d(a);
    if (!(Math.abs(x) < 2147483647.0)) throw new RuntimeException("FToInt: " + x);
    return IntValue.gen((int) x);
  }
  public static Value FShow(Value a) { return new StringValue(UniqueString.uniqueStringOf(Double.toString(d(a)))); }
  public static Value FSortPairs(Value ws) {
    Value[] e = ((TupleValue) ws.toTuple()).elems.clone();
    Arrays.sort(e, (p, q) -> Double.compare(d(((TupleValue) p.toTuple()).elems[1]), d(((TupleValue) q.toTuple()).elems[1])));
    return new TupleValue(e);
  }
}
