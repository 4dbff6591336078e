import tlc2.value.impl.*;
import util.UniqueString;

/** TLC overrides for module Dbl: doubles as <<hi,lo>>. */
public class Dbl {
  static double d(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
    return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
  }
  static Value v(double x) {
    long b = Double.doubleToLongBits(x);
    return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
  }
  static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value Add(final Value a, final Value c) { return v(d(a) + d(c)); }
  public static Value Sub(final Value a, final Value c) { return v(d(a) - d(c)); }
  public static Value Mul(final Value a, final Value c) { return v(d(a) * d(c)); }
  public static Value Div(final Value a, final Value c) { return v(d(a) / d(c)); }
  public static Value Pow(final Value a, final Value c) { return v(Math.pow(d(a), d(c))); }
  public static Value Exp(final Value a) { return v(Math.exp(d(a))); }
  public static Value Sqrt(final Value a) { return v(Math.sqrt(d(a))); }
  public static Value Opp(final Value a) { return v(-d(a)); }
  public static Value Abs(final Value a) { return v(Math.abs(d(a))); }
  static double fmin(double x, double y) { return Double.isNaN(x) ? y : Double.isNaN(y) ? x : Math.min(x, y); }
  static double fmax(double x, double y) { return Double.isNaN(x) ? y : Double.isNaN(y) ? x : Math.max(x, y); }
  public static Value Min(final Value a, final Value c) { return v(fmin(d(a), d(c))); }
  public static Value Max(final Value a, final Value c) { return v(fmax(d(a), d(c))); }
  public static Value Floor(final Value a) { return IntValue.gen((int) d(a)); }
  public static Value Lt(final Value a, final Value c) { return b(d(a) < d(c)); }
  public static Value Leq(final Value a, final Value c) { return b(d(a) <= d(c)); }
  public static Value EqD(final Value a, final Value c) { return b(d(a) == d(c)); }
  public static Value IsNaN(final Value a) { return b(Double.isNaN(d(a))); }
  public static Value IsInf(final Value a) { return b(Double.isInfinite(d(a))); }
  public static Value Close(final Value a, final Value c, final Value at, final Value rt) {
    double x = d(a), y = d(c);
    if (x == y) return BoolValue.ValTrue;
    return b(Math.abs(x - y) <= d(at) + d(rt) * Math.max(Math.abs(x), Math.abs(y)));
  }
  public static Value FromStr(final Value s) { return v(Double.parseDouble(((StringValue) s).val.toString())); }
  public static Value FromInt(final Value n) { return v(((IntValue) n).val); }
  public static Value Str(final Value a) { return new StringValue(UniqueString.uniqueStringOf(Double.toString(d(a)))); }
  public static Value SumSeq(final Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    double r = 0;
    for (Value e : t.elems) r += d(e);
    return v(r);
  }
}
