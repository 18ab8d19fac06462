import tlc2.value.impl.*;

/** TLC evaluation of module Text (see Text.tla, RationalsTest.tla). */
public class Text {
  public static Value StrLe(Value a, Value b) {
    int[] x = Q.str(a).codePoints().toArray(), y = Q.str(b).codePoints().toArray();
    for (int i = 0; i < x.length; i++) {
      if (i >= y.length || x[i] > y[i]) return BoolValue.ValFalse;
      if (x[i] < y[i]) return BoolValue.ValTrue;
    }
    return BoolValue.ValTrue;
  }
  public static Value Has(Value a, Value b) { return Q.str(a).contains(Q.str(b)) ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value Split(Value a, Value c) {
    String[] p = Q.str(a).split(java.util.regex.Pattern.quote(Q.str(c)), -1);
    Value[] v = new Value[p.length];
    for (int i = 0; i < p.length; i++) v[i] = new StringValue(p[i]);
    return new TupleValue(v);
  }
}
