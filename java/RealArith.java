/*
 * TLC module override for RealArith.tla.
 *
 * A real number is a canonical string token:
 *   "nan" | "inf" | "-inf" | "<int>" | "<int>/<posint>"  (lowest terms)
 * +,-,*,/ and comparisons on finite tokens are exact (BigInteger rationals).
 * Pow, Log10 are evaluated in IEEE double and the double is converted exactly.
 */
import java.math.BigDecimal;
import java.math.BigInteger;
import tlc2.value.impl.*;
import util.UniqueString;

public class RealArith {
  static final class Q {
    final BigInteger n, d;      // d > 0, lowest terms; special: d == 0, n in {0 nan, 1 inf, -1 -inf}
    Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
    boolean fin() { return d.signum() != 0; }
    boolean nan() { return d.signum() == 0 && n.signum() == 0; }
    boolean inf() { return d.signum() == 0 && n.signum() != 0; }
    int sg() { return n.signum(); }
  }
  static final Q NAN = new Q(BigInteger.ZERO, BigInteger.ZERO);
  static final Q INF = new Q(BigInteger.ONE, BigInteger.ZERO);
  static final Q NINF = new Q(BigInteger.ONE.negate(), BigInteger.ZERO);
  static final Q ZERO = new Q(BigInteger.ZERO, BigInteger.ONE);

  static Q mk(BigInteger n, BigInteger d) {
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    BigInteger g = n.gcd(d);
    if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
    return new Q(n, d);
  }
  static Q parse(Value v) {
    if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
    if (!(v instanceof StringValue)) throw new RuntimeException("RealArith: not a number token: " + v);
    return parseS(((StringValue) v).val.toString());
  }
  /** text that is no number counts as nan, so that verdicts stay total */
  static Q parseS(String s) {
    try { return parseT(s); } catch (RuntimeException e) { return NAN; }
  }
  static Q parseT(String s) {
    switch (s) { case "nan": return NAN; case "inf": return INF; case "-inf": return NINF; }
    int k = s.indexOf('/');
    if (k >= 0) return mk(new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)));
    if (s.indexOf('.') >= 0 || s.indexOf('e') >= 0 || s.indexOf('E') >= 0) {
      BigDecimal b = new BigDecimal(s);
      return b.scale() > 0 ? mk(b.unscaledValue(), BigInteger.TEN.pow(b.scale()))
                           : new Q(b.toBigIntegerExact(), BigInteger.ONE);
    }
    return new Q(new BigInteger(s), BigInteger.ONE);
  }
  static Value out(Q q) {
    String s;
    if (!q.fin()) s = q.nan() ? "nan" : (q.sg() > 0 ? "inf" : "-inf");
    else if (q.d.equals(BigInteger.ONE)) s = q.n.toString();
    else s = q.n.toString() + "/" + q.d.toString();
    return new StringValue(UniqueString.uniqueStringOf(s));
  }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static int sgOr(Q q) { return q.sg(); }

  static Q add(Q a, Q b) {
    if (!a.fin() || !b.fin()) {
      if (a.nan() || b.nan()) return NAN;
      if (a.inf() && b.inf()) return a.sg() == b.sg() ? a : NAN;
      return a.inf() ? a : b;
    }
    if (a.d.equals(b.d)) return mk(a.n.add(b.n), a.d);
    return mk(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
  }
  static Q neg(Q a) { return new Q(a.n.negate(), a.d); }
  static Q mul(Q a, Q b) {
    if (!a.fin() || !b.fin()) {
      if (a.nan() || b.nan()) return NAN;
      int s = a.sg() * b.sg();
      return s == 0 ? NAN : (s > 0 ? INF : NINF);
    }
    return mk(a.n.multiply(b.n), a.d.multiply(b.d));
  }
  static Q div(Q a, Q b) {
    if (!a.fin() || !b.fin()) {
      if (a.nan() || b.nan()) return NAN;
      if (a.inf() && b.inf()) return NAN;
      if (b.inf()) return ZERO;
      int s = a.sg() * (b.sg() == 0 ? 1 : b.sg());
      return s > 0 ? INF : NINF;
    }
    if (b.sg() == 0) return a.sg() == 0 ? NAN : (a.sg() > 0 ? INF : NINF);
    return mk(a.n.multiply(b.d), a.d.multiply(b.n));
  }
  /** IEEE-like comparison; nan is unordered. returns null if unordered */
  static Integer cmp(Q a, Q b) {
    if (a.nan() || b.nan()) return null;
    if (a.inf() || b.inf()) {
      int x = a.inf() ? a.sg() : 0, y = b.inf() ? b.sg() : 0;
      return Integer.compare(x, y);
    }
    return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
  }
  static double dbl(Q q) {
    if (!q.fin()) return q.nan() ? Double.NaN : (q.sg() > 0 ? Double.POSITIVE_INFINITY : Double.NEGATIVE_INFINITY);
    return new BigDecimal(q.n).divide(new BigDecimal(q.d), new java.math.MathContext(60)).doubleValue();
  }
  static Q fromD(double x) {
    if (Double.isNaN(x)) return NAN;
    if (Double.isInfinite(x)) return x > 0 ? INF : NINF;
    BigDecimal b = new BigDecimal(x);
    return b.scale() > 0 ? mk(b.unscaledValue(), BigInteger.TEN.pow(b.scale()))
                         : new Q(b.toBigIntegerExact(), BigInteger.ONE);
  }

  public static Value RAdd(Value a, Value b) { return out(add(parse(a), parse(b))); }
  public static Value RSub(Value a, Value b) { return out(add(parse(a), neg(parse(b)))); }
  public static Value RMul(Value a, Value b) { return out(mul(parse(a), parse(b))); }
  public static Value RDiv(Value a, Value b) { return out(div(parse(a), parse(b))); }
  public static Value RNeg(Value a) { return out(neg(parse(a))); }
  public static Value RLt(Value a, Value b) { Integer c = cmp(parse(a), parse(b)); return bool(c != null && c < 0); }
  public static Value RLe(Value a, Value b) { Integer c = cmp(parse(a), parse(b)); return bool(c != null && c <= 0); }
  public static Value REq(Value a, Value b) { Integer c = cmp(parse(a), parse(b)); return bool(c != null && c == 0); }
  public static Value RIsNan(Value a) { return bool(parse(a).nan()); }
  public static Value RIsFinite(Value a) { return bool(parse(a).fin()); }
  public static Value RNorm(Value a) { return out(parse(a)); }
  /** floor of a finite token that fits a TLC integer; saturates at +-2^30 */
  public static Value RFloor(Value a) {
    Q q = parse(a);
    if (!q.fin()) throw new RuntimeException("RFloor of " + a);
    BigInteger[] qr = q.n.divideAndRemainder(q.d);
    BigInteger f = qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
    BigInteger lim = BigInteger.ONE.shiftLeft(30);
    if (f.compareTo(lim) > 0) f = lim;
    if (f.compareTo(lim.negate()) < 0) f = lim.negate();
    return IntValue.gen(f.intValue());
  }
  /** correctly rounded to float32 (round-half-even) */
  public static Value RF32(Value a) {
    Q q = parse(a);
    if (!q.fin()) return out(q);
    return out(roundBin(q, 24, -149, 128));
  }
  public static Value RF64(Value a) {
    Q q = parse(a);
    if (!q.fin()) return out(q);
    return out(roundBin(q, 53, -1074, 1024));
  }
  public static Value RF16(Value a) {
    Q q = parse(a);
    if (!q.fin()) return out(q);
    return out(roundBin(q, 11, -24, 16));
  }
  /** round finite q to p significant bits, minimum exponent emin of the last bit, overflow at 2^emax */
  static Q roundBin(Q q, int p, int emin, int emax) {
    if (q.sg() == 0) return ZERO;
    boolean neg = q.sg() < 0;
    BigInteger n = q.n.abs(), d = q.d;
    int e = n.bitLength() - d.bitLength() - p;       // candidate exponent of last bit
    // choose e so that 2^(p-1) <= n/(d*2^e) < 2^p
    while (cmpShift(n, d, e + p) >= 0) e++;
    while (cmpShift(n, d, e + p - 1) < 0) e--;
    if (e < emin) e = emin;
    BigInteger nn = e < 0 ? n.shiftLeft(-e) : n, dd = e > 0 ? d.shiftLeft(e) : d;
    BigInteger[] qr = nn.divideAndRemainder(dd);
    int c = qr[1].shiftLeft(1).compareTo(dd);
    BigInteger m = qr[0];
    if (c > 0 || (c == 0 && m.testBit(0))) m = m.add(BigInteger.ONE);
    Q r = e >= 0 ? new Q(m.shiftLeft(e), BigInteger.ONE) : mk(m, BigInteger.ONE.shiftLeft(-e));
    if (r.n.compareTo(r.d.shiftLeft(emax)) >= 0) return neg ? NINF : INF;
    return neg ? neg(r) : r;
  }
  /** compare n/d with 2^k */
  static int cmpShift(BigInteger n, BigInteger d, int k) {
    return k >= 0 ? n.compareTo(d.shiftLeft(k)) : n.shiftLeft(-k).compareTo(d);
  }
  public static Value RPow(Value a, Value b) {
    Q x = parse(a), y = parse(b);
    if (x.fin() && y.fin()) {
      if (y.d.equals(BigInteger.ONE) && y.n.equals(BigInteger.ONE)) return out(x);
      if (y.sg() == 0) return out(new Q(BigInteger.ONE, BigInteger.ONE));
    }
    return out(fromD(Math.pow(dbl(x), dbl(y))));
  }
  public static Value RLog10(Value a) { return out(fromD(Math.log10(dbl(parse(a))))); }
  /** |a-b| <= atol + rtol*|b|, with nan~nan and equal infinities accepted */
  public static Value RClose(Value a, Value b, Value atol, Value rtol) {
    Q x = parse(a), y = parse(b);
    if (x.nan() || y.nan()) return bool(x.nan() && y.nan());
    if (x.inf() || y.inf()) return bool(x.inf() && y.inf() && x.sg() == y.sg());
    Q df = add(x, neg(y)); if (df.sg() < 0) df = neg(df);
    Q ay = y.sg() < 0 ? neg(y) : y;
    Q lim = add(parse(atol), mul(parse(rtol), ay));
    return bool(cmp(df, lim) <= 0);
  }
  /** decimal text of |a-b| for diagnostics */
  public static Value RShow(Value a) {
    Q q = parse(a);
    return new StringValue(UniqueString.uniqueStringOf(q.fin() ? Double.toString(dbl(q)) : ((StringValue) out(q)).val.toString()));
  }

  // ---- IEEE bit patterns -------------------------------------------------
  static BigInteger bits(Q q, int w) {
    double x = dbl(q);
    if (w == 64) return new BigInteger(Long.toUnsignedString(Double.doubleToLongBits(x)));
    if (w == 32) {
      Q r = q.fin() ? roundBin(q, 24, -149, 128) : q;
      long c = Integer.toUnsignedLong(Float.floatToIntBits((float) dbl(r)));
      return BigInteger.valueOf(q.sg() < 0 ? c | 0x80000000L : c);
    }
    return BigInteger.valueOf(half(q));
  }
  static int half(Q q) {
    if (q.nan()) return 0x7e00;
    Q r = q.fin() ? roundBin(q, 11, -24, 16) : q;
    if (r.inf()) return r.sg() > 0 ? 0x7c00 : 0xfc00;
    int sign = q.sg() < 0 ? 0x8000 : 0;
    double a = Math.abs(dbl(r));
    if (a < 0x1p-14) return sign | (int) (a * 0x1p24);
    int e = Math.getExponent(a);
    return sign | ((e + 15) << 10) | ((int) (a / Math.scalb(1.0, e) * 1024) - 1024);
  }
  static Q fromHalf(int c) {
    int s = c >> 15, e = (c >> 10) & 31, m = c & 1023;
    if (e == 31) return m != 0 ? NAN : (s == 0 ? INF : NINF);
    double a = e == 0 ? m * 0x1p-24 : Math.scalb(1024.0 + m, e - 25);
    return fromD(s == 0 ? a : -a);
  }
  /** code (a token) of x rounded to w bits */
  public static Value RBits(Value x, Value w) {
    return out(new Q(bits(parse(x), ((IntValue) w).val), BigInteger.ONE));
  }
  /** value of a w-bit code */
  public static Value RFromBits(Value c, Value w) {
    Q q = parse(c);
    if (!q.fin()) return out(NAN);
    int k = ((IntValue) w).val;
    if (k == 64) return out(fromD(Double.longBitsToDouble(q.n.longValue())));
    if (k == 32) return out(fromD(Float.intBitsToFloat((int) q.n.longValue())));
    return out(fromHalf(q.n.intValue() & 0xffff));
  }
  /** 16-bit code of the half nearest to x, as a TLC integer */
  public static Value RHalfCode(Value x) { return IntValue.gen(half(parse(x))); }
  public static Value RHalf(Value c) { return out(fromHalf(((IntValue) c).val)); }
  /** largest |x| of a sequence of tokens, ignoring nan and infinities */
  public static Value RAbsMax(Value seq) {
    TupleValue t = (TupleValue) seq.toTuple();
    Q m = ZERO;
    for (Value v : t.elems) {
      Q q = parse(v);
      if (!q.fin()) continue;
      if (q.sg() < 0) q = neg(q);
      if (cmp(q, m) > 0) m = q;
    }
    return out(m);
  }

  /** a sequence given by a function constructor, evaluated once and for all */
  public static Value RForce(Value v) {
    Value t = (v instanceof TupleValue) ? v : v.toTuple();
    if (t == null) t = v;
    t.deepNormalize();
    return t;
  }
}
