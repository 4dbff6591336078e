import tlc2.value.impl.*;
import util.UniqueString;

/** TLC overrides for module Soil: the same functions, evaluated natively. */
public class Soil {
  static final UniqueString TR = u("tr"), TE = u("te"), A = u("a"), N = u("n"), M = u("m"), KS = u("ks"), LAM = u("lam"), PB = u("pb");
  static UniqueString u(String s) { return UniqueString.uniqueStringOf(s); }
  static double f(RecordValue r, UniqueString k) {
    for (int i = 0; i < r.names.length; i++) if (r.names[i].equals(k)) return Dbl.d(r.values[i]);
    throw new RuntimeException("soil field " + k);
  }
  static final class S {
    final double tr, te, a, n, m, ks, lam, pb;
    S(Value v) {
      RecordValue r = (RecordValue) v.toRcd();
      tr = f(r, TR); te = f(r, TE); a = f(r, A); n = f(r, N); m = f(r, M); ks = f(r, KS); lam = f(r, LAM); pb = f(r, PB);
    }
    double theta(double h) { return h == 0.0 ? te : 1.0 / (Math.pow(1.0 + Math.pow(a * h, n), m)) * (te - tr) + tr; }
    double se(double t) { return (t - tr) / (te - tr); }
    double seh(double h) { return h < 1e-10 ? 1.0 : 1.0 / (Math.pow(1.0 + Math.pow(a * h, n), m)); }
    double psi(double se) { return 1.0 / a * Math.pow(Math.pow(se, -1.0 / m) - 1.0, 1.0 / n); }
    double k(double se, double ff) { return ks * ff * Math.sqrt(se) * Math.pow(1.0 - Math.pow(1.0 - Math.pow(se, 1.0 / m), m), 2.0); }
  }
  public static Value Theta(final Value psi, final Value s) { return Dbl.v(new S(s).theta(Dbl.d(psi))); }
  public static Value SeOf(final Value th, final Value s) { return Dbl.v(new S(s).se(Dbl.d(th))); }
  public static Value SeOfPsi(final Value psi, final Value s) { return Dbl.v(new S(s).seh(Dbl.d(psi))); }
  public static Value PsiOf(final Value se, final Value s) { return Dbl.v(new S(s).psi(Dbl.d(se))); }
  public static Value PsiAt(final Value t, final Value s) { S q = new S(s); return Dbl.v(q.psi(q.se(Dbl.d(t)))); }
  public static Value KOf(final Value se, final Value s, final Value ff) { return Dbl.v(new S(s).k(Dbl.d(se), Dbl.d(ff))); }
  public static Value KAt(final Value t, final Value s, final Value ff) { S q = new S(s); return Dbl.v(q.k(q.se(Dbl.d(t)), Dbl.d(ff))); }

  static double geff(boolean closed, double t1, double t2, S s) {
    if (closed) {
      double sf = s.se(t1), si = s.se(t2), hc = s.pb * ((2 + 3 * s.lam) / (1 + 3 * s.lam)), x = 3 + 1 / s.lam;
      double g = hc * (Math.pow(si, x) - Math.pow(sf, x)) / (1 - Math.pow(sf, x));
      return Double.isInfinite(g) || Double.isNaN(g) ? hc : g;
    }
    double si = s.se(t1), hi = s.psi(si), hf = s.psi(s.se(t2)), dh = (hi - hf) / 120 * 0.01, acc = 0, k1 = s.k(si, 1), h2 = hf + dh;
    while (h2 < hi) {
      double k2 = s.k(s.seh(h2), 1);
      if ((k1 - k2) / k2 > 0.02) dh = dh * 0.5; else dh = dh * 10.0;
      acc += (k1 + k2) * dh / 2.0;
      k1 = k2; h2 += dh;
    }
    return Math.abs(acc / s.ks);
  }
  public static Value Geff(final Value closed, final Value t1, final Value t2, final Value s) {
    return Dbl.v(geff(((BoolValue) closed).val, Dbl.d(t1), Dbl.d(t2), new S(s)));
  }

  static double mass(double psi, double[] th, double[] be, S[] so) {
    double r = 0;
    for (int k = 0; k < th.length; k++) r += th[k] * (so[k].theta(psi) - be[k]);
    return r;
  }
  static double[] da(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems; double[] r = new double[e.length];
    for (int i = 0; i < r.length; i++) r[i] = Dbl.d(e[i]);
    return r;
  }
  static final UniqueString[] NM = {u("kind"), u("psi")};
  static Value res(double psi, String kind) {
    return new RecordValue(new UniqueString[]{u("kind"), u("psi")}, new Value[]{new StringValue(u(kind)), Dbl.v(psi)}, false);
  }
  public static Value MassRoot(final Value mass, final Value thick, final Value below, final Value soils) {
    double m = Dbl.d(mass); double[] th = da(thick), be = da(below);
    Value[] e = ((TupleValue) soils.toTuple()).elems;
    S[] so = new S[th.length];
    for (int i = 0; i < th.length; i++) so[i] = new S(e[i]);
    if (mass(0, th, be, so) + 1e-12 < m) return res(0, "sat");
    if (m < mass(1e7, th, be, so) - 1e-12) return res(1e7, "dry");
    double lo = 0, hi = 1e7;
    // bisection on the exponent first, so that heads near zero keep their relative accuracy
    double cut = 1e7;
    while (cut > 1e-12 && mass(cut, th, be, so) < m) { hi = cut; cut *= 0.1; }
    lo = cut > 1e-12 ? cut : 0;
    for (int i = 0; i < 90; i++) { double mid = 0.5 * (lo + hi); if (mass(mid, th, be, so) > m) lo = mid; else hi = mid; }
    return res(0.5 * (lo + hi), "ok");
  }
}
