/* Exact rational arithmetic for TLC: the Java evaluation of the operators declared in BigRat.tla.
 * A rational is a TLA+ integer or a TLA+ string: "12", "-3/7" or a decimal literal such as "1.5e-07"
 * (what Python's repr() gives for a float, which is read as exactly that decimal). */
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;

public final class BigRat {
  static final class Q {
    final BigInteger n, d;
    Q(BigInteger n, BigInteger d) {
      if (d.signum() == 0) throw new ArithmeticException("BigRat: zero denominator");
      if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      if (!d.equals(BigInteger.ONE)) {
        BigInteger g = n.gcd(d);
        if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
      }
      this.n = n; this.d = d;
    }
    static Q of(long v) { return new Q(BigInteger.valueOf(v), BigInteger.ONE); }
    Q add(Q o) {
      if (d.equals(o.d)) return new Q(n.add(o.n), d);
      return new Q(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d)); }
    Q neg() { return new Q(n.negate(), d); }
    Q sub(Q o) { return add(o.neg()); }
    Q mul(Q o) { return new Q(n.multiply(o.n), d.multiply(o.d)); }
    Q div(Q o) { return new Q(n.multiply(o.d), d.multiply(o.n)); }
    Q abs() { return n.signum() < 0 ? neg() : this; }
    int cmp(Q o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
    Q floor() { BigInteger[] qr = n.divideAndRemainder(d);
      return new Q(qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0], BigInteger.ONE); }
    public String toString() { return d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d; }
  }
  static final ConcurrentHashMap<String, Q> cache = new ConcurrentHashMap<>();
  static Q parse(String s) {
    int i = s.indexOf('/');
    if (i >= 0) return new Q(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
    BigDecimal b = new BigDecimal(s);
    return b.scale() <= 0 ? new Q(b.toBigIntegerExact(), BigInteger.ONE)
                          : new Q(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
  }
  static Q q(Value v) {
    if (v instanceof IntValue) return Q.of(((IntValue) v).val);
    if (!(v instanceof StringValue)) {
      throw new IllegalArgumentException("BigRat: not a number: " + v); }
    String s = ((StringValue) v).val.toString();
    Q r = cache.get(s);
    if (r == null) {
      r = parse(s);
      if (cache.size() > 3000000) cache.clear();
      if (s.length() < 200) cache.put(s, r);
    }
    return r;
  }
  static Value w(Q r) {
    String s = r.toString();
    if (s.length() < 200) { if (cache.size() > 3000000) cache.clear(); cache.put(s, r); }
    return new StringValue(s); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] elems(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    Value t = v.toTuple();
    if (t == null) throw new IllegalArgumentException("BigRat: not a sequence: " + v);
    return ((TupleValue) t).elems; }

  public static Value Add(Value x, Value y) { return w(q(x).add(q(y))); }
  public static Value Sub(Value x, Value y) { return w(q(x).sub(q(y))); }
  public static Value Mul(Value x, Value y) { return w(q(x).mul(q(y))); }
  public static Value Div(Value x, Value y) { return w(q(x).div(q(y))); }
  public static Value Neg(Value x) { return w(q(x).neg()); }
  public static Value AbsR(Value x) { return w(q(x).abs()); }
  public static Value Leq(Value x, Value y) { return b(q(x).cmp(q(y)) <= 0); }
  public static Value Lt(Value x, Value y) { return b(q(x).cmp(q(y)) < 0); }
  public static Value EqR(Value x, Value y) { return b(q(x).cmp(q(y)) == 0); }
  public static Value FloorR(Value x) { return w(q(x).floor()); }
  public static Value FloorI(Value x) { return IntValue.gen(q(x).floor().n.intValueExact()); }
  public static Value PowR(Value x, Value k) {
    int e = ((IntValue) k).val; Q a = q(x);
    return e >= 0 ? w(new Q(a.n.pow(e), a.d.pow(e))) : w(new Q(a.d.pow(-e), a.n.pow(-e))); }
  public static Value SumR(Value s) { Q a = Q.of(0); for (Value v : elems(s)) a = a.add(q(v)); return w(a); }
  public static Value DotR(Value s, Value t) {
    Value[] x = elems(s), y = elems(t); Q a = Q.of(0);
    if (x.length != y.length) throw new IllegalArgumentException("BigRat: Dot of different lengths");
    for (int i = 0; i < x.length; i++) a = a.add(q(x[i]).mul(q(y[i])));
    return w(a); }
  public static Value MaxR(Value s) { Q a = null; for (Value v : elems(s)) { Q c = q(v); if (a == null || c.cmp(a) > 0) a = c; } return w(a); }
  public static Value MinR(Value s) { Q a = null; for (Value v : elems(s)) { Q c = q(v); if (a == null || c.cmp(a) < 0) a = c; } return w(a); }
  /* nearest value with k significant decimal digits */
  public static Value Sig(Value x, Value k) {
    Q a = q(x);
    BigDecimal r = new BigDecimal(a.n).divide(new BigDecimal(a.d), new MathContext(((IntValue) k).val));
    return w(parse(r.toString())); }
  public static Value IsNum(Value x) {
    if (x instanceof IntValue) return BoolValue.ValTrue;
    if (!(x instanceof StringValue)) return BoolValue.ValFalse;
    try { q(x); return BoolValue.ValTrue; } catch (RuntimeException e) { return BoolValue.ValFalse; } }
  /* |x-y| <= atol + rtol*max(|x|,|y|); FALSE when x or y is no number (nan, inf, null) */
  public static Value Close(Value x, Value y, Value rt, Value at) {
    Q a, c;
    try { a = q(x); c = q(y); } catch (RuntimeException e) { return BoolValue.ValFalse; }
    Q m = a.abs().cmp(c.abs()) >= 0 ? a.abs() : c.abs();
    return b(a.sub(c).abs().cmp(q(at).add(q(rt).mul(m))) <= 0); }
}
