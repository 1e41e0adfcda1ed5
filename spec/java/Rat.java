// Exact rational arithmetic for TLC: same operators as spec/Rat.tla.
import java.math.BigInteger;
import tlc2.value.impl.*;
import tlc2.value.*;
import tlc2.util.FP64;
import util.Assert;

public class Rat {
  // NB: kind STRINGVALUE is reported only so that TLC's switch statements have a case; a RatV is never a string.
  public static final class RatV extends Value {
    final BigInteger n, d;   // d > 0, reduced;  NaN: d == 0
    RatV(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
    public byte getKind() { return STRINGVALUE; }
    public String getKindString() { return "a rational"; }
    public boolean member(Value v) { throw new RuntimeException("\\in a rational"); }
    public boolean isFinite() { throw new RuntimeException("IsFinite of a rational"); }
    public Value takeExcept(ValueExcept ex) {
      if (ex.idx < ex.path.length) throw new RuntimeException("EXCEPT on a rational");
      return ex.value;
    }
    public Value takeExcept(ValueExcept[] exs) {
      Value v = this;
      for (ValueExcept ex : exs) v = v.takeExcept(ex);
      return v;
    }
    public int size() { throw new RuntimeException("size of a rational"); }
    public boolean mutates() { return false; }
    public boolean isNormalized() { return true; }
    public Value normalize() { return this; }
    public boolean isDefined() { return true; }
    public IValue deepCopy() { return this; }
    public boolean assignable(Value v) { return v instanceof RatV && eq((RatV) v); }
    boolean eq(RatV o) { return n.equals(o.n) && d.equals(o.d); }
    public boolean equals(Object o) { return o instanceof RatV && eq((RatV) o); }
    public int compareTo(Object o) {
      if (!(o instanceof RatV)) return 1;
      RatV b = (RatV) o;
      if (d.signum() == 0 || b.d.signum() == 0) return Integer.compare(b.d.signum(), d.signum());
      return n.multiply(b.d).compareTo(b.n.multiply(d));
    }
    public long fingerPrint(long fp) {
      byte[] a = n.toByteArray(), b = d.toByteArray();
      fp = FP64.Extend(fp, (byte) 77);
      for (byte x : a) fp = FP64.Extend(fp, x);
      fp = FP64.Extend(fp, (byte) 78);
      for (byte x : b) fp = FP64.Extend(fp, x);
      return fp;
    }
    public IValue permute(IMVPerm p) { return this; }
    public StringBuffer toString(StringBuffer sb, int off, boolean sw) {
      if (d.signum() == 0) return sb.append("NaN");
      sb.append(n.toString());
      if (!d.equals(BigInteger.ONE)) sb.append('/').append(d.toString());
      return sb;
    }
  }

  static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;
  static final RatV NAN = new RatV(ZERO, ZERO);
  static final RatV Z = new RatV(ZERO, ONE);

  static boolean pow2(BigInteger d) { return d.getLowestSetBit() == d.bitLength() - 1; }

  static RatV mk(BigInteger n, BigInteger d) {
    if (d.signum() == 0) return NAN;
    if (n.signum() == 0) return Z;
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    if (d.equals(ONE)) return new RatV(n, d);
    if (pow2(d)) {                       // the usual case: doubles
      int k = Math.min(n.getLowestSetBit(), d.bitLength() - 1);
      return k == 0 ? new RatV(n, d) : new RatV(n.shiftRight(k), d.shiftRight(k));
    }
    BigInteger g = n.gcd(d);
    return g.equals(ONE) ? new RatV(n, d) : new RatV(n.divide(g), d.divide(g));
  }

  static RatV r(Value v) {
    if (v instanceof RatV) return (RatV) v;
    throw new RuntimeException("not a rational: " + v);
  }
  static boolean nan(RatV a) { return a.d.signum() == 0; }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  static RatV add(RatV a, RatV b) {
    if (nan(a) || nan(b)) return NAN;
    if (a.n.signum() == 0) return b;
    if (b.n.signum() == 0) return a;
    if (a.d.equals(b.d)) return mk(a.n.add(b.n), a.d);
    if (pow2(a.d) && pow2(b.d)) {
      int ka = a.d.bitLength(), kb = b.d.bitLength();
      return ka > kb ? mk(a.n.add(b.n.shiftLeft(ka - kb)), a.d) : mk(b.n.add(a.n.shiftLeft(kb - ka)), b.d);
    }
    return mk(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
  }
  static RatV mul(RatV a, RatV b) {
    if (nan(a) || nan(b)) return NAN;
    if (a.n.signum() == 0 || b.n.signum() == 0) return Z;
    return mk(a.n.multiply(b.n), a.d.multiply(b.d));
  }
  static RatV neg(RatV a) { return new RatV(a.n.negate(), a.d); }
  static int cmp(RatV a, RatV b) {
    int s = a.n.signum(), t = b.n.signum();
    if (s != t) return Integer.compare(s, t);
    return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
  }

  static RatV parse(String s) {
    String t = s.toLowerCase();
    if (t.contains("nan") || t.contains("inf")) return NAN;
    if (t.contains("x")) {
      double x;
      try { x = Double.parseDouble(t.contains("p") ? t : t + "p0"); } catch (NumberFormatException e) { return NAN; }
      return fromDouble(x);
    }
    try {
      int q = t.indexOf('/');
      if (q >= 0) return mk(new BigInteger(t.substring(0, q)), new BigInteger(t.substring(q + 1)));
      if (t.contains(".") || t.contains("e")) {
        java.math.BigDecimal x = new java.math.BigDecimal(t);
        return x.scale() <= 0 ? mk(x.toBigIntegerExact(), ONE) : mk(x.unscaledValue(), BigInteger.TEN.pow(x.scale()));
      }
      return mk(new BigInteger(t), ONE);
    } catch (NumberFormatException e) { return NAN; }
  }
  static RatV fromDouble(double x) {
    if (Double.isNaN(x) || Double.isInfinite(x)) return NAN;
    if (x == 0) return Z;
    long bits = Double.doubleToLongBits(x);
    int e = (int) ((bits >> 52) & 0x7ff);
    long m = bits & ((1L << 52) - 1);
    if (e == 0) e = 1; else m |= 1L << 52;
    e -= 1075;
    if (bits < 0) m = -m;
    BigInteger n = BigInteger.valueOf(m);
    return e >= 0 ? mk(n.shiftLeft(e), ONE) : mk(n, ONE.shiftLeft(-e));
  }
  static String str(Value v) { return ((StringValue) v).val.toString(); }
  static Value[] elems(Value s) {
    Value t = s.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + s);
    return ((TupleValue) t).elems;
  }

  public static Value NotANumber() { return NAN; }
  public static Value RIsNum(Value a) { return b(a instanceof RatV && !nan((RatV) a)); }
  public static Value RStr(Value s) { return parse(str(s)); }
  public static Value RShow(Value a) {
    RatV x = r(a);
    if (nan(x)) return new StringValue("NaN");
    double v = new java.math.BigDecimal(x.n).divide(new java.math.BigDecimal(x.d), java.math.MathContext.DECIMAL64).doubleValue();
    return new StringValue(Double.toString(v));
  }
  public static Value RInt(Value n) { return mk(BigInteger.valueOf(((IntValue) n).val), ONE); }
  public static Value RFrac(Value n, Value d) {
    return mk(BigInteger.valueOf(((IntValue) n).val), BigInteger.valueOf(((IntValue) d).val));
  }
  public static Value RAdd(Value a, Value b) { return add(r(a), r(b)); }
  public static Value RSub(Value a, Value b) { return add(r(a), neg(r(b))); }
  public static Value RMul(Value a, Value b) { return mul(r(a), r(b)); }
  public static Value RDiv(Value a, Value b) {
    RatV x = r(a), y = r(b);
    if (nan(x) || nan(y)) return NAN;
    return mk(x.n.multiply(y.d), x.d.multiply(y.n));
  }
  public static Value RNeg(Value a) { return neg(r(a)); }
  public static Value RAbs(Value a) { RatV x = r(a); return x.n.signum() < 0 ? neg(x) : x; }
  public static Value RLt(Value a, Value c) { RatV x = r(a), y = r(c); return b(!nan(x) && !nan(y) && cmp(x, y) < 0); }
  public static Value RLe(Value a, Value c) { RatV x = r(a), y = r(c); return b(!nan(x) && !nan(y) && cmp(x, y) <= 0); }
  public static Value REq(Value a, Value c) { RatV x = r(a), y = r(c); return b(!nan(x) && !nan(y) && x.eq(y)); }
  public static Value RMax(Value a, Value c) { RatV x = r(a), y = r(c); return nan(x) || nan(y) ? NAN : cmp(x, y) <= 0 ? y : x; }
  public static Value RMin(Value a, Value c) { RatV x = r(a), y = r(c); return nan(x) || nan(y) ? NAN : cmp(x, y) <= 0 ? x : y; }
  public static Value RFloor(Value a) {
    RatV x = r(a);
    BigInteger[] q = x.n.divideAndRemainder(x.d);
    BigInteger f = q[1].signum() < 0 ? q[0].subtract(ONE) : q[0];
    if (f.bitLength() > 30) throw new RuntimeException("RFloor out of range: " + x);
    return IntValue.gen(f.intValue());
  }
  public static Value RPow2(Value n) {
    int k = ((IntValue) n).val;
    return k >= 0 ? mk(ONE.shiftLeft(k), ONE) : mk(ONE, ONE.shiftLeft(-k));
  }
  // ---- fixed point with 2^-FB units, for the elementary functions -------------------------------------------------
  static final int FB = 160;
  static final BigInteger FONE = ONE.shiftLeft(FB);
  static BigInteger fix(RatV a) { return a.n.shiftLeft(FB + 1).divide(a.d).add(ONE).shiftRight(1); }
  static BigInteger fmul(BigInteger a, BigInteger b) { return a.multiply(b).shiftRight(FB); }
  static BigInteger atanInv(int q) {               // atan(1/q)
    BigInteger t = FONE.divide(BigInteger.valueOf(q)), s = ZERO, q2 = BigInteger.valueOf((long) q * q);
    for (int k = 0; t.signum() != 0; ++k, t = t.divide(q2)) {
      BigInteger u = t.divide(BigInteger.valueOf(2 * k + 1));
      s = k % 2 == 0 ? s.add(u) : s.subtract(u);
    }
    return s;
  }
  static final BigInteger FPI = atanInv(5).shiftLeft(4).subtract(atanInv(239).shiftLeft(2));
  static RatV unfix(BigInteger a) { return mk(a.add(ONE.shiftLeft(FB - 121)).shiftRight(FB - 120), ONE.shiftLeft(120)); }
  static BigInteger series(BigInteger first, BigInteger x2, int k) {   // first * (1 - x2/(k(k+1)) + ...)
    BigInteger t = first, s = first;
    for (; t.signum() != 0 && k < 400; k += 2) {
      t = fmul(t, x2).divide(BigInteger.valueOf((long) k * (k + 1))).negate();
      if (t.equals(ONE.negate())) t = ZERO;
      s = s.add(t);
    }
    return s;
  }
  static RatV sinPi(RatV a) {
    if (nan(a)) return NAN;
    BigInteger x = fix(a).mod(FONE.shiftLeft(1));                      // [0, 2)
    boolean neg = x.compareTo(FONE) >= 0;
    if (neg) x = x.subtract(FONE);                                     // [0, 1)
    BigInteger half = FONE.shiftRight(1);
    if (x.compareTo(half) > 0) x = FONE.subtract(x);                   // [0, 1/2]
    x = fmul(x, FPI);
    BigInteger s = series(x, fmul(x, x), 2);
    return unfix(neg ? s.negate() : s);
  }
  public static Value RSinPi(Value a) { return sinPi(r(a)); }
  public static Value RCosPi(Value a) { return sinPi(add(r(a), mk(ONE, BigInteger.TWO))); }
  public static Value RExp(Value a) {
    RatV x = r(a);
    if (nan(x)) return NAN;
    BigInteger f = fix(x);
    int k = Math.max(0, f.abs().bitLength() - FB + 4);                 // exp(x) = exp(x / 2^k)^(2^k)
    f = f.shiftRight(k);
    BigInteger t = FONE, s = FONE;
    for (int q = 1; t.signum() != 0 && !t.equals(ONE.negate()); ++q) { t = fmul(t, f).divide(BigInteger.valueOf(q)); s = s.add(t); }
    for (; k > 0; --k) s = fmul(s, s);
    return unfix(s);
  }
  public static Value RRound(Value a, Value kk) { return round(r(a), ((IntValue) kk).val); }
  public static Value RArrRound(Value raw, Value kk) {
    Value[] c = elems(raw), p = new Value[c.length];
    int k = ((IntValue) kk).val;
    for (int i = 0; i < c.length; ++i) {
      Value[] e = elems(c[i]), q = new Value[e.length];
      for (int j = 0; j < e.length; ++j) q[j] = round(parse(str(e[j])), k);
      p[i] = new TupleValue(q);
    }
    return new TupleValue(p);
  }
  static RatV round(RatV x, int k) {
    if (nan(x)) return NAN;
    if (pow2(x.d) && x.d.bitLength() - 1 <= k) return x;
    BigInteger[] q = x.n.shiftLeft(k + 1).add(x.d).divideAndRemainder(x.d.shiftLeft(1));
    return mk(q[1].signum() < 0 ? q[0].subtract(ONE) : q[0], ONE.shiftLeft(k));
  }
  public static Value RSum(Value s) {
    RatV t = Z;
    for (Value e : elems(s)) t = add(t, r(e));
    return t;
  }
  public static Value RDot(Value s, Value t) {
    Value[] a = elems(s), c = elems(t);
    if (a.length != c.length) throw new RuntimeException("RDot: lengths differ");
    RatV x = Z;
    for (int i = 0; i < a.length; ++i) x = add(x, mul(r(a[i]), r(c[i])));
    return x;
  }
  public static Value RNear(Value a, Value c, Value t) {
    RatV x = r(a), y = r(c), z = r(t);
    if (nan(x) || nan(y) || nan(z)) return b(false);
    RatV e = add(x, neg(y));
    if (e.n.signum() < 0) e = neg(e);
    return b(cmp(e, z) <= 0);
  }
  static Value vec(Value raw) {
    Value[] c = elems(raw), p = new Value[c.length];
    for (int i = 0; i < c.length; ++i) p[i] = parse(str(c[i]));
    return new TupleValue(p);
  }
  public static Value RVec(Value raw) { return vec(raw); }
  public static Value RArr(Value raw) {
    Value[] c = elems(raw), p = new Value[c.length];
    for (int i = 0; i < c.length; ++i) p[i] = vec(c[i]);
    return new TupleValue(p);
  }
}
