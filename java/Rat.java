// Overrides of spec/Rat.tla over unbounded integers.  Every operator computes the function that
// Rat.tla defines; only the integers' encoding differs: <<sign, limb0, limb1, ...>> in radix 2^30.
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Comparator;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class Rat {
  private static final BigInteger ZERO = BigInteger.ZERO, ONE = BigInteger.ONE;
  private static final BigInteger RADIX = ONE.shiftLeft(30);
  private static final MathContext MC = new MathContext(40);

  /** A number: a tuple value that also remembers the integers it encodes. */
  static final class Q extends TupleValue {
    final BigInteger n, d;
    Q(BigInteger n, BigInteger d) { super(new Value[] {enc(n), enc(d)}); this.n = n; this.d = d; }
    boolean nan() { return d.signum() == 0 && n.signum() == 0; }
    boolean fin() { return d.signum() != 0; }
  }

  private static Value enc(BigInteger x) {
    ArrayList<Value> l = new ArrayList<>();
    l.add(IntValue.gen(x.signum()));
    BigInteger a = x.abs();
    while (a.signum() != 0) { l.add(IntValue.gen(a.intValue() & ((1 << 30) - 1))); a = a.shiftRight(30); }
    return new TupleValue(l.toArray(new Value[0]));
  }
  private static BigInteger dec(Value v) {
    if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
    TupleValue t = (TupleValue) v.toTuple();
    BigInteger r = ZERO;
    for (int i = t.elems.length - 1; i > 0; i--)
      r = r.shiftLeft(30).add(BigInteger.valueOf(((IntValue) t.elems[i]).val));
    return ((IntValue) t.elems[0]).val < 0 ? r.negate() : r;
  }
  private static Q q(Value v) {
    if (v instanceof Q) return (Q) v;
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null || t.elems.length != 2) throw new RuntimeException("not a number: " + v);
    return new Q(dec(t.elems[0]), dec(t.elems[1]));
  }
  private static final Q NAN = new Q(ZERO, ZERO), INF = new Q(ONE, ZERO), NINF = new Q(ONE.negate(), ZERO),
      QZ = new Q(ZERO, ONE), QO = new Q(ONE, ONE);
  private static Q norm(BigInteger n, BigInteger d) {
    if (d.signum() == 0) return n.signum() == 0 ? NAN : n.signum() > 0 ? INF : NINF;
    if (n.signum() == 0) return QZ;
    BigInteger g = n.gcd(d);
    if (d.signum() < 0) g = g.negate();
    return g.equals(ONE) ? new Q(n, d) : new Q(n.divide(g), d.divide(g));
  }
  private static Value[] seq(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return t.elems;
  }
  private static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value RI(Value n) { return new Q(BigInteger.valueOf(((IntValue) n).val), ONE); }
  public static Value RQ(Value n, Value d) {
    return norm(BigInteger.valueOf(((IntValue) n).val), BigInteger.valueOf(((IntValue) d).val));
  }
  public static Value RNaN() { return NAN; }
  public static Value RInf() { return INF; }
  public static Value R0() { return QZ; }
  public static Value R1() { return QO; }
  public static Value RIsNaN(Value a) { return bool(q(a).nan()); }
  public static Value RIsFin(Value a) { return bool(q(a).fin()); }
  public static Value RSgn(Value a) { return IntValue.gen(q(a).n.signum()); }
  public static Value RNeg(Value a) { Q x = q(a); return new Q(x.n.negate(), x.d); }
  public static Value RAbs(Value a) { Q x = q(a); return x.n.signum() < 0 ? new Q(x.n.negate(), x.d) : x; }

  private static Q add(Q a, Q b) {
    if (a.nan() || b.nan()) return NAN;
    if (!a.fin() || !b.fin()) {
      if (!a.fin() && !b.fin()) return a.n.equals(b.n) ? a : NAN;
      return a.fin() ? b : a;
    }
    if (a.d.equals(b.d)) return norm(a.n.add(b.n), a.d);
    return norm(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
  }
  private static Q neg(Q a) { return new Q(a.n.negate(), a.d); }
  private static Q mul(Q a, Q b) {
    if (a.nan() || b.nan()) return NAN;
    return norm(a.n.multiply(b.n), a.d.multiply(b.d));
  }
  private static Q div(Q a, Q b) {
    if (a.nan() || b.nan()) return NAN;
    if (!b.fin()) return a.fin() ? QZ : NAN;
    if (b.n.signum() == 0) return norm(a.n, ZERO);
    return norm(a.n.multiply(b.d), a.d.multiply(b.n));
  }
  private static int cmp(Q a, Q b) { // neither NaN
    if (!a.fin() && !b.fin()) return a.n.compareTo(b.n);
    if (!a.fin()) return a.n.signum();
    if (!b.fin()) return -b.n.signum();
    return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
  }
  private static Q abs(Q a) { return a.n.signum() < 0 ? neg(a) : a; }
  private static Q max(Q a, Q b) { return a.nan() || b.nan() ? NAN : cmp(a, b) < 0 ? b : a; }

  public static Value RAdd(Value a, Value b) { return add(q(a), q(b)); }
  public static Value RSub(Value a, Value b) { return add(q(a), neg(q(b))); }
  public static Value RMul(Value a, Value b) { return mul(q(a), q(b)); }
  public static Value RDiv(Value a, Value b) { return div(q(a), q(b)); }
  public static Value RLt(Value a, Value b) { Q x = q(a), y = q(b); return bool(!x.nan() && !y.nan() && cmp(x, y) < 0); }
  public static Value RLe(Value a, Value b) { Q x = q(a), y = q(b); return bool(!x.nan() && !y.nan() && cmp(x, y) <= 0); }
  public static Value RMax(Value a, Value b) { return max(q(a), q(b)); }
  public static Value RMin(Value a, Value b) {
    Q x = q(a), y = q(b);
    return x.nan() || y.nan() ? NAN : cmp(y, x) < 0 ? y : x;
  }
  public static Value RPow(Value a, Value k) {
    Q r = QO, x = q(a);
    for (int i = 0; i < ((IntValue) k).val; i++) r = mul(r, x);
    return r;
  }
  public static Value RSum(Value s) { Q r = QZ; for (Value v : seq(s)) r = add(r, q(v)); return r; }
  public static Value RProd(Value s) { Q r = QO; for (Value v : seq(s)) r = mul(r, q(v)); return r; }
  public static Value RDot(Value s, Value t) {
    Value[] x = seq(s), y = seq(t);
    Q r = QZ;
    for (int i = 0; i < x.length; i++) r = add(r, mul(q(x[i]), q(y[i])));
    return r;
  }
  public static Value RSumV(Value s) { Q r = QZ; for (Value v : seq(s)) { Q x = q(v); if (!x.nan()) r = add(r, x); } return r; }
  public static Value RSort(Value s) {
    Value[] x = seq(s);
    Q[] y = new Q[x.length];
    for (int i = 0; i < x.length; i++) y[i] = q(x[i]);
    Arrays.sort(y, new Comparator<Q>() { public int compare(Q a, Q b) { return a.nan() || b.nan() ? 0 : cmp(a, b); } });
    return new TupleValue(Arrays.copyOf(y, y.length, Value[].class));
  }
  public static Value RNearTol(Value a, Value b, Value s, Value num, Value den) {
    Q x = q(a), y = q(b), z = q(s);
    if (x.n.equals(y.n) && x.d.equals(y.d)) return BoolValue.ValTrue;
    if (!x.fin() || !y.fin()) return BoolValue.ValFalse;
    Q m = max(max(abs(x), abs(y)), z.fin() ? abs(z) : QZ);
    Q tol = norm(BigInteger.valueOf(((IntValue) num).val), BigInteger.valueOf(((IntValue) den).val));
    return bool(cmp(abs(add(x, neg(y))), mul(tol, m)) <= 0);
  }
  private static final IntValue I1 = IntValue.gen(1), E9 = IntValue.gen(1000000000);
  public static Value RNear(Value a, Value b, Value s) { return RNearTol(a, b, s, I1, E9); }
  public static Value RClose(Value a, Value b) { return RNearTol(a, b, QZ, I1, E9); }

  private static final ConcurrentHashMap<String, Q> cache = new ConcurrentHashMap<>();
  public static Value RParse(Value s) {
    String t = ((StringValue) s).val.toString();
    Q r = cache.get(t);
    if (r != null) return r;
    if (t.equals("nan")) r = NAN;
    else if (t.equals("inf")) r = INF;
    else if (t.equals("-inf")) r = NINF;
    else {
      BigDecimal d = new BigDecimal(t);
      r = d.scale() <= 0 ? norm(d.toBigIntegerExact(), ONE) : norm(d.unscaledValue(), BigInteger.TEN.pow(d.scale()));
    }
    cache.put(t, r);
    return r;
  }
  public static Value RParseSeq(Value s) {
    Value[] x = seq(s), y = new Value[x.length];
    for (int i = 0; i < x.length; i++) y[i] = RParse(x[i]);
    return new TupleValue(y);
  }
  public static Value RParseMat(Value s) {
    Value[] x = seq(s), y = new Value[x.length];
    for (int i = 0; i < x.length; i++) y[i] = RParseSeq(x[i]);
    return new TupleValue(y);
  }

  private static double dbl(Q a) {
    if (a.nan()) return Double.NaN;
    if (!a.fin()) return a.n.signum() > 0 ? Double.POSITIVE_INFINITY : Double.NEGATIVE_INFINITY;
    return new BigDecimal(a.n).divide(new BigDecimal(a.d), MC).doubleValue();
  }
  private static Q fromDbl(double x) {
    if (Double.isNaN(x)) return NAN;
    if (Double.isInfinite(x)) return x > 0 ? INF : NINF;
    BigDecimal d = new BigDecimal(x);
    return d.scale() <= 0 ? norm(d.toBigIntegerExact(), ONE) : norm(d.unscaledValue(), BigInteger.TEN.pow(d.scale()));
  }
  public static Value RLn(Value a) {
    Q x = q(a);
    if (x.nan() || x.n.signum() < 0) return NAN;
    if (!x.fin()) return INF;
    if (x.n.signum() == 0) return NINF;
    double y = dbl(add(x, neg(QO)));
    return fromDbl(Math.abs(y) < 0.5 ? Math.log1p(y) : Math.log(dbl(x)));
  }
  public static Value RExp(Value a) { return fromDbl(Math.exp(dbl(q(a)))); }
  public static Value RSqrt(Value a) {
    Q x = q(a);
    if (x.nan() || x.n.signum() < 0) return NAN;
    if (!x.fin()) return INF;
    BigDecimal r = new BigDecimal(x.n).divide(new BigDecimal(x.d), MC).sqrt(new MathContext(30));
    return r.scale() <= 0 ? norm(r.toBigIntegerExact(), ONE) : norm(r.unscaledValue(), BigInteger.TEN.pow(r.scale()));
  }
  public static Value RPhi(Value a) {
    double x = dbl(q(a));
    if (Double.isNaN(x)) return NAN;
    if (x > 9) return QO;
    if (x < -9) return QZ;
    // Phi(x) = 1/2 + phi(x) (x + x^3/3 + x^5/15 + ...)
    double t = x, s = x;
    for (int k = 1; k < 400 && Math.abs(t) > 1e-18 * Math.abs(s); k++) { t *= x * x / (2 * k + 1); s += t; }
    return fromDbl(0.5 + s * Math.exp(-0.5 * x * x) / Math.sqrt(2 * Math.PI));
  }
  public static Value RShow(Value a) { return new StringValue(String.valueOf(dbl(q(a)))); }
  public static Value RDec5(Value a) {
    Q x = q(a);
    if (!x.fin()) return new StringValue("nan");
    BigDecimal d = new BigDecimal(x.n).divide(new BigDecimal(x.d), 5, java.math.RoundingMode.HALF_EVEN).stripTrailingZeros();
    return new StringValue(d.signum() == 0 ? "0" : d.toPlainString());
  }
}
