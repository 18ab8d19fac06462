import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC evaluation of module Rationals (see Rationals.tla, RatDef.tla, RationalsTest.tla). */
public class Rationals {
  public static Value R(Value n) { return Q.of(BigInteger.valueOf(((IntValue) n).val), BigInteger.ONE).v; }
  public static Value RFrac(Value n, Value d) {
    return Q.of(BigInteger.valueOf(((IntValue) n).val), BigInteger.valueOf(((IntValue) d).val)).v; }
  public static Value RAdd(Value a, Value b) { return Q.get(a).add(Q.get(b)).v; }
  public static Value RSub(Value a, Value b) { return Q.get(a).sub(Q.get(b)).v; }
  public static Value RMul(Value a, Value b) { return Q.get(a).mul(Q.get(b)).v; }
  public static Value RDiv(Value a, Value b) { return Q.get(a).div(Q.get(b)).v; }
  public static Value RLt(Value a, Value b) { return Q.get(a).cmp(Q.get(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RLe(Value a, Value b) { return Q.get(a).cmp(Q.get(b)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RFloor(Value a) {
    Q q = Q.get(a);
    BigInteger[] dr = q.n.divideAndRemainder(q.d);
    BigInteger f = dr[1].signum() < 0 ? dr[0].subtract(BigInteger.ONE) : dr[0];
    return IntValue.gen(f.intValueExact());
  }
  public static Value RIsInt(Value a) { return Q.get(a).d.equals(BigInteger.ONE) ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RSum(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    Q acc = Q.ZERO;
    for (int i = 0; i < t.elems.length; i++) acc = acc.addRaw(Q.get(t.elems[i]));
    return acc.v();
  }
  public static Value RMinS(Value s) { return Q.extreme(s, -1); }
  public static Value RMaxS(Value s) { return Q.extreme(s, 1); }
  public static Value RNorm(Value s) { return Q.parse(((StringValue) s).val.toString()).v(); }
}
