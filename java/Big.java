import tlc2.value.impl.*;
import java.math.BigInteger;

/** TLC operator overrides for spec/Big.tla (same definitions, java.math arithmetic). */
public class Big {
  static final BigInteger B = BigInteger.valueOf(10000);
  static final BigInteger B4 = BigInteger.valueOf(10000L * 10000L * 10000L * 10000L);

  static BigInteger dec(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    int s = ((IntValue) e[0]).val;
    if (s == 2 || s == 0) return BigInteger.ZERO;
    int n = e.length - 1;
    BigInteger r = BigInteger.ZERO;
    int i = n;
    while (i % 4 != 0) {                    // leading partial group
      r = r.multiply(B).add(BigInteger.valueOf(((IntValue) e[i]).val));
      i--;
    }
    while (i >= 4) {
      long g = ((IntValue) e[i]).val;
      g = g * 10000L + ((IntValue) e[i - 1]).val;
      g = g * 10000L + ((IntValue) e[i - 2]).val;
      g = g * 10000L + ((IntValue) e[i - 3]).val;
      r = r.multiply(B4).add(BigInteger.valueOf(g));
      i -= 4;
    }
    return s < 0 ? r.negate() : r;
  }

  static Value enc(BigInteger x) {
    int s = x.signum();
    x = x.abs();
    java.util.ArrayList<Value> l = new java.util.ArrayList<>(24);
    l.add(IntValue.gen(s));
    while (x.signum() != 0) {
      BigInteger[] q = x.divideAndRemainder(B4);
      long g = q[1].longValue();
      x = q[0];
      for (int j = 0; j < 4; j++) {
        if (x.signum() == 0 && g == 0) break;
        l.add(IntValue.gen((int) (g % 10000L)));
        g /= 10000L;
      }
    }
    return new TupleValue(l.toArray(new Value[0]));
  }

  public static Value BAdd(Value a, Value b) { return enc(dec(a).add(dec(b))); }
  public static Value BSub(Value a, Value b) { return enc(dec(a).subtract(dec(b))); }
  public static Value BMul(Value a, Value b) { return enc(dec(a).multiply(dec(b))); }
  public static Value BDiv(Value a, Value b) {
    BigInteger d = dec(b);
    return d.signum() == 0 ? enc(BigInteger.ZERO) : enc(dec(a).divide(d));
  }
  public static Value BCmp(Value a, Value b) { return IntValue.gen(dec(a).compareTo(dec(b))); }
}
