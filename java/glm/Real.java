package glm;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;

/** An (extended) real number: a decimal of 40 significant digits, +-infinity or NaN. */
public final class Real {
  static final MathContext MC = new MathContext(40, RoundingMode.HALF_EVEN);
  static final BigDecimal ONE = BigDecimal.ONE, TWO = BigDecimal.valueOf(2), HALF = new BigDecimal("0.5");
  static final int FIN = 0, PINF = 1, NINF = 2, NANK = 3;
  final BigDecimal v;
  final int kind;

  static final Real NAN = new Real(null, NANK), INF = new Real(null, PINF), MINF = new Real(null, NINF),
      ZERO = new Real(BigDecimal.ZERO), UNIT = new Real(ONE);

  Real(BigDecimal v) { this.v = v; this.kind = FIN; }
  private Real(BigDecimal v, int k) { this.v = v; this.kind = k; }

  static Real of(BigDecimal v) { return new Real(v); }

  static Real parse(String s) {
    switch (s) {
      case "nan": case "NaN": return NAN;
      case "inf": case "Infinity": return INF;
      case "-inf": case "-Infinity": return MINF;
      default: return new Real(new BigDecimal(s));
    }
  }

  boolean fin() { return kind == FIN; }
  boolean nan() { return kind == NANK; }

  int sgn() { return kind == FIN ? v.signum() : kind == PINF ? 1 : kind == NINF ? -1 : 0; }

  static Real add(Real a, Real b) {
    if (a.fin() && b.fin()) return of(a.v.add(b.v, MC));
    if (a.nan() || b.nan()) return NAN;
    if (!a.fin() && !b.fin()) return a.kind == b.kind ? a : NAN;
    return a.fin() ? b : a;
  }
  Real neg() { return kind == FIN ? of(v.negate()) : kind == PINF ? MINF : kind == NINF ? INF : NAN; }
  static Real sub(Real a, Real b) { return add(a, b.neg()); }
  static Real mul(Real a, Real b) {
    if (a.fin() && b.fin()) return of(a.v.multiply(b.v, MC));
    int s = a.sgn() * b.sgn();
    if (a.nan() || b.nan() || s == 0) return NAN;
    return s > 0 ? INF : MINF;
  }
  static Real div(Real a, Real b) {
    if (a.nan() || b.nan()) return NAN;
    if (!b.fin()) return a.fin() ? ZERO : NAN;
    if (b.v.signum() == 0) return a.sgn() == 0 ? NAN : a.sgn() > 0 ? INF : MINF;
    if (!a.fin()) return a.sgn() * b.sgn() > 0 ? INF : MINF;
    return of(a.v.divide(b.v, MC));
  }
  Real abs() { return sgn() < 0 ? neg() : this; }
  /** total order with NaN last, used only for canonical comparison of values */
  static int order(Real a, Real b) {
    if (a.nan() || b.nan()) return a.nan() ? (b.nan() ? 0 : 1) : -1;
    if (a.fin() && b.fin()) return a.v.compareTo(b.v);
    int x = a.fin() ? 0 : a.sgn(), y = b.fin() ? 0 : b.sgn();
    return Integer.compare(x, y);
  }
  static boolean le(Real a, Real b) { return !a.nan() && !b.nan() && order(a, b) <= 0; }
  static boolean lt(Real a, Real b) { return !a.nan() && !b.nan() && order(a, b) < 0; }

  // ---------------------------------------------------------------- elementary functions
  static final BigDecimal LN2 = new BigDecimal("0.69314718055994530941723212145817656807550013436025525412068000949");
  static final BigDecimal PI = new BigDecimal("3.1415926535897932384626433832795028841971693993751058209749445923");
  static final BigDecimal LN2PI_HALF = new BigDecimal("0.91893853320467274178032973640561763986139747363778341281715154");
  static final MathContext MX = new MathContext(50, RoundingMode.HALF_EVEN);

  static BigDecimal expB(BigDecimal x) {
    if (x.signum() == 0) return ONE;
    // x = k ln2 + r
    long k = x.divide(LN2, MX).setScale(0, RoundingMode.HALF_EVEN).longValueExact();
    BigDecimal r = x.subtract(LN2.multiply(BigDecimal.valueOf(k), new MathContext(62)), MX);
    int sh = 8;
    r = r.divide(BigDecimal.valueOf(1L << sh), MX);
    BigDecimal t = ONE, s = ONE;
    for (int i = 1; i < 60; i++) {
      t = t.multiply(r, MX).divide(BigDecimal.valueOf(i), MX);
      if (t.signum() == 0) break;
      s = s.add(t, MX);
      if (t.precision() - t.scale() < -50) break;
    }
    for (int i = 0; i < sh; i++) s = s.multiply(s, MX);
    BigDecimal p2 = TWO.pow((int) Math.abs(k), MX);
    return k >= 0 ? s.multiply(p2, MC) : s.divide(p2, MC);
  }
  Real exp() {
    if (kind == PINF) return INF;
    if (kind == NINF) return ZERO;
    if (nan()) return NAN;
    if (v.compareTo(BigDecimal.valueOf(2000000)) > 0) return INF;
    if (v.compareTo(BigDecimal.valueOf(-2000000)) < 0) return ZERO;
    return of(expB(v));
  }
  static BigDecimal lnB(BigDecimal x) {
    // x = m * 2^k roughly; use the decimal exponent for the start value
    int e = x.precision() - x.scale();
    double m = x.movePointLeft(e).doubleValue();
    double y0 = Math.log(m) + e * 2.302585092994045684;
    BigDecimal y = new BigDecimal(y0, MX);
    for (int i = 0; i < 2; i++) {
      BigDecimal ey = expB50(y);
      BigDecimal d = x.subtract(ey, MX).divide(x.add(ey, MX), MX);
      y = y.add(d.multiply(TWO), MX);
    }
    return y.round(MC);
  }
  private static BigDecimal expB50(BigDecimal x) {
    if (x.signum() == 0) return ONE;
    long k = x.divide(LN2, MX).setScale(0, RoundingMode.HALF_EVEN).longValueExact();
    BigDecimal r = x.subtract(LN2.multiply(BigDecimal.valueOf(k), new MathContext(62)), MX);
    int sh = 8;
    r = r.divide(BigDecimal.valueOf(1L << sh), MX);
    BigDecimal t = ONE, s = ONE;
    for (int i = 1; i < 60; i++) {
      t = t.multiply(r, MX).divide(BigDecimal.valueOf(i), MX);
      if (t.signum() == 0) break;
      s = s.add(t, MX);
      if (t.precision() - t.scale() < -50) break;
    }
    for (int i = 0; i < sh; i++) s = s.multiply(s, MX);
    BigDecimal p2 = TWO.pow((int) Math.abs(k), MX);
    return k >= 0 ? s.multiply(p2, MX) : s.divide(p2, MX);
  }
  Real ln() {
    if (nan() || kind == NINF) return NAN;
    if (kind == PINF) return INF;
    if (v.signum() < 0) return NAN;
    if (v.signum() == 0) return MINF;
    return of(lnB(v));
  }
  Real sqrt() {
    if (nan() || kind == NINF) return NAN;
    if (kind == PINF) return INF;
    if (v.signum() < 0) return NAN;
    if (v.signum() == 0) return ZERO;
    return of(v.sqrt(MC));
  }
  static Real pow(Real a, Real b) {
    if (a.nan() || b.nan() || !a.fin() || !b.fin()) return NAN;
    if (b.v.signum() == 0) return UNIT;
    boolean isInt = b.v.stripTrailingZeros().scale() <= 0;
    if (isInt && b.v.abs().compareTo(BigDecimal.valueOf(1000)) <= 0) {
      int n = b.v.intValueExact();
      if (a.v.signum() == 0) return n > 0 ? ZERO : INF;
      BigDecimal p = a.v.pow(Math.abs(n), MC);
      return n > 0 ? of(p) : of(ONE.divide(p, MC));
    }
    if (a.v.signum() < 0) return NAN;
    if (a.v.signum() == 0) return b.v.signum() > 0 ? ZERO : INF;
    return mul(b, a.ln()).exp();
  }
  static BigDecimal atanB(BigDecimal x) {
    boolean neg = x.signum() < 0;
    if (neg) x = x.negate();
    boolean inv = x.compareTo(ONE) > 0;
    if (inv) x = ONE.divide(x, MX);
    // halve the argument three times: atan x = 2 atan(x/(1+sqrt(1+x^2)))
    int h = 5;
    for (int i = 0; i < h; i++) x = x.divide(ONE.add(ONE.add(x.multiply(x, MX), MX).sqrt(MX), MX), MX);
    BigDecimal x2 = x.multiply(x, MX), t = x, s = x;
    for (int i = 3; i < 80 && t.signum() != 0; i += 2) {
      t = t.multiply(x2, MX).negate();
      s = s.add(t.divide(BigDecimal.valueOf(i), MX), MX);
      if (t.precision() - t.scale() < -50) break;
    }
    s = s.multiply(BigDecimal.valueOf(1 << h), MX);
    if (inv) s = PI.divide(TWO, MX).subtract(s, MX);
    return neg ? s.negate() : s;
  }
  Real atan() {
    if (nan()) return NAN;
    if (!fin()) return of(PI.divide(TWO, MC).multiply(BigDecimal.valueOf(sgn())));
    return of(atanB(v).round(MC));
  }
  // Bernoulli numbers B_{2k}
  static final long[][] BERN = {{1, 6}, {-1, 30}, {1, 42}, {-1, 30}, {5, 66}, {-691, 2730}, {7, 6}, {-3617, 510},
      {43867, 798}, {-174611, 330}, {854513, 138}, {-236364091, 2730}, {8553103, 6}};
  static BigDecimal lgammaB(BigDecimal x) {
    BigDecimal shift = ONE;
    BigDecimal z = x;
    while (z.compareTo(BigDecimal.valueOf(40)) < 0) { shift = shift.multiply(z, MX); z = z.add(ONE, MX); }
    BigDecimal s = z.subtract(HALF).multiply(lnB(z), MX).subtract(z, MX).add(LN2PI_HALF, MX);
    BigDecimal z2 = z.multiply(z, MX), zp = z;
    for (int k = 1; k <= BERN.length; k++) {
      BigDecimal b = BigDecimal.valueOf(BERN[k - 1][0]).divide(BigDecimal.valueOf(BERN[k - 1][1]), MX);
      s = s.add(b.divide(BigDecimal.valueOf(2L * k * (2L * k - 1)).multiply(zp, MX), MX), MX);
      zp = zp.multiply(z2, MX);
    }
    return s.subtract(lnB(shift), MC);
  }
  Real lgamma() {
    if (!fin() || v.signum() <= 0) return kind == PINF ? INF : (fin() && v.signum() == 0) ? INF : NAN;
    return of(lgammaB(v));
  }
  /** regularized lower incomplete gamma P(a,x) by series (adequate for moderate x) */
  static Real gammaP(Real a, Real x) {
    if (!a.fin() || !x.fin()) return x.kind == PINF && a.fin() ? UNIT : NAN;
    if (x.v.signum() <= 0) return ZERO;
    if (x.v.compareTo(BigDecimal.valueOf(3000)) > 0) return UNIT;
    BigDecimal t = ONE.divide(a.v, MX), s = t, ap = a.v;
    for (int i = 0; i < 20000; i++) {
      ap = ap.add(ONE);
      t = t.multiply(x.v, MX).divide(ap, MX);
      s = s.add(t, MX);
      if (t.signum() == 0 || (t.precision() - t.scale()) - (s.precision() - s.scale()) < -45) break;
    }
    Real lead = sub(sub(mul(a, x.ln()), x), a.lgamma()).exp();
    return mul(lead, of(s));
  }
  /** regularized incomplete beta I_x(a,b), Lentz continued fraction */
  static Real betaI(Real a, Real b, Real x) {
    if (!a.fin() || !b.fin() || !x.fin()) return NAN;
    if (x.v.signum() <= 0) return ZERO;
    if (x.v.compareTo(ONE) >= 0) return UNIT;
    BigDecimal thr = a.v.add(ONE).divide(a.v.add(b.v).add(TWO), MX);
    if (x.v.compareTo(thr) > 0) return sub(UNIT, betaI(b, a, sub(UNIT, x)));
    Real front = add(sub(sub(of(lgammaB(a.v.add(b.v))), a.lgamma()), b.lgamma()),
        add(mul(a, x.ln()), mul(b, sub(UNIT, x).ln()))).exp();
    BigDecimal tiny = new BigDecimal("1e-60");
    BigDecimal c = ONE, d = ONE.subtract(a.v.add(b.v).multiply(x.v, MX).divide(a.v.add(ONE), MX), MX);
    if (d.signum() == 0) d = tiny;
    d = ONE.divide(d, MX);
    BigDecimal h = d;
    for (int m = 1; m < 3000; m++) {
      BigDecimal bm = BigDecimal.valueOf(m), am2 = a.v.add(bm).add(bm);
      BigDecimal aa = bm.multiply(b.v.subtract(bm)).multiply(x.v, MX).divide(am2.subtract(ONE).multiply(am2, MX), MX);
      d = ONE.add(aa.multiply(d, MX), MX); if (d.signum() == 0) d = tiny;
      c = ONE.add(aa.divide(c, MX), MX); if (c.signum() == 0) c = tiny;
      d = ONE.divide(d, MX);
      h = h.multiply(d, MX).multiply(c, MX);
      aa = a.v.add(bm).negate().multiply(a.v.add(b.v).add(bm), MX).multiply(x.v, MX)
          .divide(am2.multiply(am2.add(ONE), MX), MX);
      d = ONE.add(aa.multiply(d, MX), MX); if (d.signum() == 0) d = tiny;
      c = ONE.add(aa.divide(c, MX), MX); if (c.signum() == 0) c = tiny;
      d = ONE.divide(d, MX);
      BigDecimal del = d.multiply(c, MX);
      h = h.multiply(del, MX);
      if (del.subtract(ONE).abs().compareTo(new BigDecimal("1e-38")) < 0) break;
    }
    return div(mul(front, of(h)), a);
  }
  /** standard normal CDF */
  static Real normCdf(Real x) {
    if (x.nan()) return NAN;
    if (!x.fin()) return x.sgn() > 0 ? UNIT : ZERO;
    Real half = of(HALF);
    Real p = mul(half, gammaP(half, mul(half, mul(x, x))));
    return x.sgn() >= 0 ? add(half, p) : sub(half, p);
  }

  /** 0-based decimal exponent, used for scientific printing */
  public String toString() {
    switch (kind) {
      case PINF: return "inf";
      case NINF: return "-inf";
      case NANK: return "nan";
      default:
        return String.format("%.9e", v);
    }
  }
}
