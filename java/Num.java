import tlc2.value.impl.*;
import java.math.BigInteger;

/** TLC operator overrides for spec/Num.tla: the same algorithms, step by step,
 *  in java.math arithmetic (spec/BigTest.tla compares them digit for digit). */
public class Num {
  static final BigInteger S = BigInteger.TEN.pow(40);
  static final BigInteger Z = BigInteger.ZERO, TWO = BigInteger.valueOf(2);

  static BigInteger mul(BigInteger a, BigInteger b) { return a.multiply(b).divide(S); }
  static BigInteger div(BigInteger a, BigInteger b) { return b.signum() == 0 ? Z : a.multiply(S).divide(b); }
  static BigInteger divi(BigInteger a, long i) { return a.divide(BigInteger.valueOf(i)); }

  public static Value NMul(Value a, Value b) { return Big.enc(mul(Big.dec(a), Big.dec(b))); }
  public static Value NDiv(Value a, Value b) { return Big.enc(div(Big.dec(a), Big.dec(b))); }
  public static Value NAdd(Value a, Value b) { return Big.enc(Big.dec(a).add(Big.dec(b))); }
  public static Value NSub(Value a, Value b) { return Big.enc(Big.dec(a).subtract(Big.dec(b))); }
  public static Value DotFrom(Value s, Value t) {
    Value[] x = ((TupleValue) s.toTuple()).elems, y = ((TupleValue) t.toTuple()).elems;
    BigInteger r = Z;
    for (int i = 0; i < x.length; i++) r = r.add(Big.dec(x[i]).multiply(Big.dec(y[i])));
    return Big.enc(r);
  }

  static BigInteger expRed(BigInteger x, int h) {
    x = x.divide(BigInteger.ONE.shiftLeft(h));
    BigInteger t = S, acc = Z;
    for (int n = 1; t.signum() != 0; n++) { acc = acc.add(t); t = divi(mul(t, x), n); }
    for (int i = 0; i < h; i++) acc = mul(acc, acc);
    return acc;
  }
  static BigInteger exp(BigInteger x) { return x.signum() < 0 ? div(S, expRed(x.negate(), 8)) : expRed(x, 8); }

  static BigInteger lnNear(BigInteger m) {
    BigInteger y = div(m.subtract(S), m.add(S)), y2 = mul(y, y), t = y, acc = Z;
    for (int n = 1; t.signum() != 0; n += 2) { acc = acc.add(divi(t, n)); t = mul(t, y2); }
    return acc.multiply(TWO);
  }
  static final BigInteger LN2 = lnNear(S.multiply(TWO));
  static final BigInteger F43 = S.multiply(BigInteger.valueOf(4)).divide(BigInteger.valueOf(3));
  static final BigInteger F23 = S.multiply(TWO).divide(BigInteger.valueOf(3));
  static BigInteger ln(BigInteger x) {
    if (x.signum() <= 0) return Z;
    int k = 0;
    while (x.compareTo(F43) > 0) { x = x.divide(TWO); k++; }
    while (x.compareTo(F23) < 0) { x = x.multiply(TWO); k--; }
    return lnNear(x).add(LN2.multiply(BigInteger.valueOf(k)));
  }
  static BigInteger pow(BigInteger x, BigInteger y) {
    if (y.signum() == 0) return S;
    if (x.signum() <= 0) return Z;
    return exp(mul(y, ln(x)));
  }
  static BigInteger sqrt(BigInteger a) { return a.signum() <= 0 ? Z : a.multiply(S).sqrt(); }

  static final BigInteger PI = new BigInteger("31415926535897932384626433832795028841971");
  static final BigInteger TWOPI = PI.multiply(TWO);
  static BigInteger modTwoPi(BigInteger x) {
    BigInteger q = x.divide(TWOPI);
    if (x.signum() < 0 && q.multiply(TWOPI).compareTo(x) != 0) q = q.subtract(BigInteger.ONE);
    return x.subtract(q.multiply(TWOPI));
  }
  static BigInteger sinTerms(BigInteger x2, int n, BigInteger t) {
    BigInteger acc = Z;
    while (t.signum() != 0) {
      acc = acc.add(t);
      t = divi(mul(t, x2), (long) (n + 1) * (n + 2)).negate();
      n += 2;
    }
    return acc;
  }
  public static Value NExp(Value x) { return Big.enc(exp(Big.dec(x))); }
  public static Value NLn(Value x) { return Big.enc(ln(Big.dec(x))); }
  public static Value NPow(Value x, Value y) { return Big.enc(pow(Big.dec(x), Big.dec(y))); }
  public static Value NSqrt(Value x) { return Big.enc(sqrt(Big.dec(x))); }
  public static Value NSin(Value v) { BigInteger r = modTwoPi(Big.dec(v)); return Big.enc(sinTerms(mul(r, r), 1, r)); }
  public static Value NCos(Value v) { BigInteger r = modTwoPi(Big.dec(v)); return Big.enc(sinTerms(mul(r, r), 0, S)); }
}
