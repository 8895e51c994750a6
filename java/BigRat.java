// TLC module override for spec/BigRat.tla: exact rational arithmetic.
//
// A number is a TLA+ string: an optional sign, a decimal integer m and either
// nothing ("12"), a binary exponent ("5p-3" = 5/8) or a denominator ("1/3").
// Results are canonical (m odd when there is an exponent, lowest terms, no
// exponent for integers), so canonical numbers are equal iff the strings are.
// Everything that is not a number is absorbed as "nan" and compares FALSE.
import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.FcnLambdaValue;
import tlc2.value.impl.FcnRcdValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import bigrat.RatValue;

public final class BigRat {
  static final BigInteger ZERO = BigInteger.ZERO;
  static final BigInteger ONE = BigInteger.ONE;

  // value = num / den * 2^exp, den odd and positive, num odd (or 0 with exp 0)
  static final class R {
    final BigInteger num, den;
    final int exp;
    R(BigInteger n, BigInteger d, int e) { num = n; den = d; exp = e; }
  }

  static R make(BigInteger n, BigInteger d, int e) {
    if (d.signum() == 0) return null;
    if (n.signum() == 0) return new R(ZERO, ONE, 0);
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    int sn = n.getLowestSetBit(), sd = d.getLowestSetBit();
    if (sn > 0) { n = n.shiftRight(sn); e += sn; }
    if (sd > 0) { d = d.shiftRight(sd); e -= sd; }
    if (!d.equals(ONE)) {
      BigInteger g = n.gcd(d);
      if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
    }
    return new R(n, d, e);
  }

  static final ConcurrentHashMap<String, R> cache = new ConcurrentHashMap<>();

  static R parse(Value v) {
    if (v instanceof IntValue) return make(BigInteger.valueOf(((IntValue) v).val), ONE, 0);
    if (v instanceof RatValue) return (R) ((RatValue) v).number;
    if (!(v instanceof StringValue)) return null;
    String s = ((StringValue) v).val.toString();
    R r = cache.get(s);
    if (r != null) return r;
    try {
      int p = s.indexOf('p'), q = s.indexOf('/');
      int e = 0;
      BigInteger d = ONE;
      String m = s;
      if (p >= 0) { e = Integer.parseInt(s.substring(p + 1)); m = s.substring(0, p); }
      if (q >= 0) { d = new BigInteger(m.substring(q + 1)); m = m.substring(0, q); }
      r = make(new BigInteger(m), d, e);
    } catch (NumberFormatException ex) {
      return null;
    }
    if (r != null) {
      if (cache.size() > 200000) cache.clear();
      cache.put(s, r);
    }
    return r;
  }

  static String text(R r) {
    if (r.den.equals(ONE)) {
      if (r.exp >= 0 && r.exp < 64) return r.num.shiftLeft(r.exp).toString();
      return r.num + "p" + r.exp;
    }
    if (r.exp == 0) return r.num + "/" + r.den;
    return r.num + "/" + r.den + "p" + r.exp;
  }

  static Value show(R r) {
    if (r == null) return new StringValue("nan");
    return new RatValue(r, () -> text(r));
  }

  static R add(R a, R b) {
    if (a == null || b == null) return null;
    if (a.num.signum() == 0) return b;
    if (b.num.signum() == 0) return a;
    int e = Math.min(a.exp, b.exp);
    BigInteger x = a.num.shiftLeft(a.exp - e), y = b.num.shiftLeft(b.exp - e);
    if (a.den.equals(b.den)) return make(x.add(y), a.den, e);
    return make(x.multiply(b.den).add(y.multiply(a.den)), a.den.multiply(b.den), e);
  }
  static R neg(R a) { return a == null ? null : new R(a.num.negate(), a.den, a.exp); }
  static R mul(R a, R b) {
    if (a == null || b == null) return null;
    if (a.num.signum() == 0 || b.num.signum() == 0) return new R(ZERO, ONE, 0);
    if (a.den.equals(ONE) && b.den.equals(ONE)) return new R(a.num.multiply(b.num), ONE, a.exp + b.exp);
    return make(a.num.multiply(b.num), a.den.multiply(b.den), a.exp + b.exp);
  }
  static R inv(R a) {
    if (a == null || a.num.signum() == 0) return null;
    BigInteger n = a.den, d = a.num;
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    return new R(n, d, -a.exp);
  }
  static int cmp(R a, R b) { return add(a, neg(b)).num.signum(); }

  // Nearest number with `bits` significant bits.
  static R round(R a, int bits) {
    if (a == null || a.num.signum() == 0) return a;
    BigInteger n = a.num.abs();
    int have = n.bitLength() - a.den.bitLength();  // log2 of n/den, +-1
    int shift = bits + 1 - have;                   // so the quotient has > bits bits
    if (a.den.equals(ONE) && n.bitLength() <= bits) return a;
    BigInteger q = shift >= 0 ? n.shiftLeft(shift).divide(a.den)
                              : n.divide(a.den.shiftLeft(-shift));
    int drop = q.bitLength() - bits;
    int e = a.exp - shift;
    if (drop > 0) {
      BigInteger half = ONE.shiftLeft(drop - 1);
      q = q.add(half).shiftRight(drop);
      e += drop;
    }
    return make(a.num.signum() < 0 ? q.negate() : q, ONE, e);
  }

  static R[] vec(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) return null;
    R[] out = new R[t.elems.length];
    for (int i = 0; i < out.length; i++) out[i] = parse(t.elems[i]);
    return out;
  }
  static Value showVec(R[] a) {
    Value[] out = new Value[a.length];
    for (int i = 0; i < out.length; i++) out[i] = show(a[i]);
    return new TupleValue(out);
  }

  // the string a number stands for (e.g. for ToJson)
  public static Value RStr(Value a) {
    R x = parse(a);
    return x == null ? new StringValue("nan") : new StringValue(text(x));
  }

  // ---- operators -------------------------------------------------------------
  public static Value RAdd(Value a, Value b) { return show(add(parse(a), parse(b))); }
  public static Value RSub(Value a, Value b) { return show(add(parse(a), neg(parse(b)))); }
  public static Value RMul(Value a, Value b) { return show(mul(parse(a), parse(b))); }
  public static Value RDiv(Value a, Value b) { return show(mul(parse(a), inv(parse(b)))); }
  public static Value RNeg(Value a) { return show(neg(parse(a))); }
  public static Value RAbs(Value a) {
    R x = parse(a);
    return show(x == null || x.num.signum() >= 0 ? x : neg(x));
  }
  public static Value RRound(Value a, Value bits) {
    return show(round(parse(a), ((IntValue) bits).val));
  }
  public static Value RSqrt(Value a, Value bits) {
    R x = parse(a);
    if (x == null || x.num.signum() < 0) return show(null);
    if (x.num.signum() == 0) return show(x);
    int b = ((IntValue) bits).val;
    // scale so that the integer square root has about `b` bits
    int k = 2 * b - (x.num.bitLength() - x.den.bitLength());
    if (((k - x.exp) & 1) != 0) k++;
    BigInteger n = k >= 0 ? x.num.shiftLeft(k).divide(x.den) : x.num.divide(x.den.shiftLeft(-k));
    return show(round(make(n.sqrt(), ONE, (x.exp - k) / 2), b));
  }
  public static Value RNum(Value a) { return parse(a) != null ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RLt(Value a, Value b) {
    R x = parse(a), y = parse(b);
    return x != null && y != null && cmp(x, y) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value RLe(Value a, Value b) {
    R x = parse(a), y = parse(b);
    return x != null && y != null && cmp(x, y) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value REq(Value a, Value b) {
    R x = parse(a), y = parse(b);
    return x != null && y != null && cmp(x, y) == 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value RSame(Value a, Value b) {
    R x = parse(a), y = parse(b);
    boolean same = x != null && y != null ? cmp(x, y) == 0
                 : x == null && y == null && a instanceof StringValue && a.equals(b);
    return same ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  // The same value with nothing left unevaluated in it (TLCEval does only the top level).
  public static Value Force(Value v) {
    if (v instanceof FcnLambdaValue) {
      Value t = v.toTuple();
      v = t != null ? t : v.toFcnRcd();
    }
    if (v instanceof TupleValue) {
      Value[] e = ((TupleValue) v).elems;
      for (int i = 0; i < e.length; i++) e[i] = Force(e[i]);
    } else if (v instanceof RecordValue) {
      Value[] e = ((RecordValue) v).values;
      for (int i = 0; i < e.length; i++) e[i] = Force(e[i]);
    } else if (v instanceof FcnRcdValue) {
      Value[] e = ((FcnRcdValue) v).values;
      for (int i = 0; i < e.length; i++) e[i] = Force(e[i]);
    } else if (!(v instanceof RatValue)) {
      Value s = v.toSetEnum();
      if (s != null) return s;
    }
    return v;
  }

  // ---- sequences of numbers (defined in BigRat.tla in terms of the above) -----
  public static Value VDot(Value a, Value b) {
    R[] x = vec(a), y = vec(b);
    R s = new R(ZERO, ONE, 0);
    for (int i = 0; i < x.length; i++) s = add(s, mul(x[i], y[i]));
    return show(s);
  }
  public static Value VSum(Value a) {
    R s = new R(ZERO, ONE, 0);
    for (R r : vec(a)) s = add(s, r);
    return show(s);
  }
  public static Value VAdd(Value a, Value b) {
    R[] x = vec(a), y = vec(b), z = new R[x.length];
    for (int i = 0; i < x.length; i++) z[i] = add(x[i], y[i]);
    return showVec(z);
  }
  public static Value VSub(Value a, Value b) {
    R[] x = vec(a), y = vec(b), z = new R[x.length];
    for (int i = 0; i < x.length; i++) z[i] = add(x[i], neg(y[i]));
    return showVec(z);
  }
  public static Value VMul(Value a, Value b) {
    R[] x = vec(a), y = vec(b), z = new R[x.length];
    for (int i = 0; i < x.length; i++) z[i] = mul(x[i], y[i]);
    return showVec(z);
  }
  public static Value VScale(Value c, Value b) {
    R k = parse(c);
    R[] y = vec(b), z = new R[y.length];
    for (int i = 0; i < y.length; i++) z[i] = mul(k, y[i]);
    return showVec(z);
  }
  public static Value VRound(Value a, Value bits) {
    R[] x = vec(a);
    int b = ((IntValue) bits).val;
    for (int i = 0; i < x.length; i++) x[i] = round(x[i], b);
    return showVec(x);
  }
  public static Value VMaxAbs(Value a) {
    R s = new R(ZERO, ONE, 0);
    for (R r : vec(a)) {
      if (r == null) return show(null);
      R m = r.num.signum() < 0 ? neg(r) : r;
      if (cmp(s, m) < 0) s = m;
    }
    return show(s);
  }
}
