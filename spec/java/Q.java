import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;
import util.UniqueString;

/** A normalised rational together with its TLC string value. */
final class Q {
  static final ConcurrentHashMap<UniqueString, Q> CACHE = new ConcurrentHashMap<>();
  static final Q ZERO = of(BigInteger.ZERO, BigInteger.ONE);
  final BigInteger n, d;
  StringValue v;

  private Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }

  static Q raw(BigInteger n, BigInteger d) {
    if (d.signum() == 0) throw new ArithmeticException("rational with denominator 0");
    BigInteger g = n.gcd(d);
    if (d.signum() < 0) g = g.negate();
    if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
    return new Q(n, d);
  }
  static Q of(BigInteger n, BigInteger d) { Q q = raw(n, d); q.v(); return q; }
  StringValue v() {
    if (v == null) { v = new StringValue(n.toString() + "/" + d.toString()); CACHE.putIfAbsent(v.val, this); }
    return v;
  }
  static Q get(Value x) {
    StringValue s = (StringValue) x;
    Q q = CACHE.get(s.val);
    if (q != null) return q;
    q = parse(s.val.toString());
    if (q.v == null && !(q.n.toString() + "/" + q.d.toString()).equals(s.val.toString()))
      throw new IllegalArgumentException("not a normalised rational: " + s.val);
    q.v();
    return q;
  }
  static String str(Value v) { return ((StringValue) v).val.toString(); }
  static Q parse(String s) {
    s = s.trim();
    int i = s.indexOf('/');
    if (i >= 0) return raw(new BigInteger(s.substring(0, i).trim()), new BigInteger(s.substring(i + 1).trim()));
    BigDecimal b = new BigDecimal(s);
    return b.scale() <= 0 ? raw(b.toBigIntegerExact(), BigInteger.ONE)
                          : raw(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
  }
  Q addRaw(Q o) { return d.equals(o.d) ? raw(n.add(o.n), d) : raw(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d)); }
  Q add(Q o) { Q q = addRaw(o); q.v(); return q; }
  Q sub(Q o) { return of(n.multiply(o.d).subtract(o.n.multiply(d)), d.multiply(o.d)); }
  Q mul(Q o) { return of(n.multiply(o.n), d.multiply(o.d)); }
  Q div(Q o) { return of(n.multiply(o.d), d.multiply(o.n)); }
  int cmp(Q o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
  static Value extreme(Value s, int sign) {
    SetEnumValue t = (SetEnumValue) s.toSetEnum();
    Q best = null;
    for (int i = 0; i < t.elems.size(); i++) {
      Q q = get((Value) t.elems.elementAt(i));
      if (best == null || sign * q.cmp(best) > 0) best = q;
    }
    if (best == null) throw new IllegalArgumentException("minimum/maximum of an empty set");
    return best.v();
  }
}
