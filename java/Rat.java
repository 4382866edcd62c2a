import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import tlc2.value.impl.*;

/**
 * TLC module override of Rat.tla: exact rational arithmetic on canonical values
 * <<sign, limbs of the numerator, limbs of the denominator>> (24 bit limbs, most significant first).
 * Plain TLA+ integers are accepted wherever a rational is.
 */
public class Rat {
  static final class Q {
    final BigInteger n, d;
    Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
  }

  static final Q ZERO = new Q(BigInteger.ZERO, BigInteger.ONE);

  static Q mk(BigInteger n, BigInteger d) {
    if (d.signum() == 0) throw new RuntimeException("Rat: division by zero");
    if (n.signum() == 0) return ZERO;
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    if (!d.equals(BigInteger.ONE)) {
      BigInteger g = n.gcd(d);
      if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
    }
    return new Q(n, d);
  }

  static Value limbs(BigInteger x) {
    byte[] b = x.toByteArray();
    int len = b.length, off = 0;
    while (off < len && b[off] == 0) off++;
    int k = (len - off + 2) / 3;
    Value[] v = new Value[k];
    int end = len;
    for (int i = k - 1; i >= 0; i--) {
      int w = 0;
      for (int j = 3; j >= 1; j--) { int p = end - j; w = (w << 8) | ((p >= off) ? (b[p] & 0xff) : 0); }
      v[i] = IntValue.gen(w);
      end -= 3;
    }
    return new TupleValue(v);
  }

  static BigInteger unlimb(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    byte[] b = new byte[e.length * 3];
    for (int i = 0; i < e.length; i++) {
      int w = ((IntValue) e[i]).val;
      b[3 * i] = (byte) (w >> 16); b[3 * i + 1] = (byte) (w >> 8); b[3 * i + 2] = (byte) w;
    }
    return new BigInteger(1, b);
  }

  static Value out(Q q) {
    return new TupleValue(new Value[] {IntValue.gen(q.n.signum()), limbs(q.n.abs()), limbs(q.d)});
  }

  static Q in(Value v) {
    if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
    Value[] e = ((TupleValue) v.toTuple()).elems;
    int sign = ((IntValue) e[0]).val;
    if (sign == 0) return ZERO;
    BigInteger n = unlimb(e[1]);
    return new Q(sign < 0 ? n.negate() : n, unlimb(e[2]));
  }

  static Q add(Q x, Q y) {
    if (x.n.signum() == 0) return y;
    if (y.n.signum() == 0) return x;
    if (x.d.equals(y.d)) return mk(x.n.add(y.n), x.d);
    return mk(x.n.multiply(y.d).add(y.n.multiply(x.d)), x.d.multiply(y.d));
  }
  static Q neg(Q x) { return new Q(x.n.negate(), x.d); }
  static Q sub(Q x, Q y) { return add(x, neg(y)); }
  static Q mul(Q x, Q y) {
    if (x.n.signum() == 0 || y.n.signum() == 0) return ZERO;
    return mk(x.n.multiply(y.n), x.d.multiply(y.d));
  }
  static Q div(Q x, Q y) { return mk(x.n.multiply(y.d), x.d.multiply(y.n)); }
  static int cmp(Q x, Q y) { return x.n.multiply(y.d).compareTo(y.n.multiply(x.d)); }

  public static Value RInt(Value a) { return out(in(a)); }
  public static Value RAdd(Value a, Value b) { return out(add(in(a), in(b))); }
  public static Value RSub(Value a, Value b) { return out(sub(in(a), in(b))); }
  public static Value RMul(Value a, Value b) { return out(mul(in(a), in(b))); }
  public static Value RDiv(Value a, Value b) { return out(div(in(a), in(b))); }
  public static Value RNeg(Value a) { return out(neg(in(a))); }
  public static Value RAbs(Value a) { Q x = in(a); return out(new Q(x.n.abs(), x.d)); }
  public static Value RSign(Value a) { return IntValue.gen(in(a).n.signum()); }
  public static Value RCmp(Value a, Value b) { return IntValue.gen(Integer.signum(cmp(in(a), in(b)))); }
  public static Value RLt(Value a, Value b) { return cmp(in(a), in(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RLe(Value a, Value b) { return cmp(in(a), in(b)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RIsZero(Value a) { return in(a).n.signum() == 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }

  static Q parse(String s) {
    int slash = s.indexOf('/');
    if (slash >= 0) return div(parse(s.substring(0, slash)), parse(s.substring(slash + 1)));
    BigDecimal b = new BigDecimal(s.trim());
    BigInteger u = b.unscaledValue();
    return b.scale() > 0 ? mk(u, BigInteger.TEN.pow(b.scale())) : new Q(u.multiply(BigInteger.TEN.pow(-b.scale())), BigInteger.ONE);
  }

  static String str(Value v) { return ((StringValue) v).val.toString(); }

  /** The number a decimal ("1.5e-3") or fraction ("-3/7") denotes. */
  public static Value RParse(Value s) { return out(parse(str(s))); }

  /** Does the string denote a finite number? ("NaN", "+Inf", "-Inf" do not.) */
  public static Value RIsNum(Value s) {
    try { parse(str(s)); return BoolValue.ValTrue; } catch (RuntimeException e) { return BoolValue.ValFalse; }
  }

  /** Shortest useful decimal approximation, for messages. */
  public static Value RStr(Value a) {
    Q x = in(a);
    return new StringValue(new BigDecimal(x.n).divide(new BigDecimal(x.d), new MathContext(17)).stripTrailingZeros().toString());
  }

  /** The exact text, "n" or "n/d". */
  public static Value RText(Value a) {
    Q x = in(a);
    return new StringValue(x.d.equals(BigInteger.ONE) ? x.n.toString() : x.n + "/" + x.d);
  }

  /** The number denoted by a text as a decimal number, rounded to nine digits if it isn't a shorter one. */
  public static Value RDecimal(Value s) {
    Q x = parse(str(s));
    java.math.BigDecimal d = new java.math.BigDecimal(x.n).divide(new java.math.BigDecimal(x.d), new java.math.MathContext(15));
    d = d.signum() == 0 ? java.math.BigDecimal.ZERO : d.stripTrailingZeros();
    return new StringValue(Math.abs(d.scale()) > 12 ? d.toString() : d.toPlainString());
  }

  static Q round(Q x, int bits) {
    int excess = x.d.bitLength() - bits;
    if (x.n.signum() == 0 || (excess <= 0 && x.n.bitLength() <= bits)) return x;
    int shift = bits - (x.n.abs().bitLength() - x.d.bitLength());
    BigInteger two = BigInteger.TWO;
    if (shift >= 0) return mk(x.n.shiftLeft(shift).divide(x.d), two.pow(shift));
    return new Q(x.n.divide(x.d.shiftLeft(-shift)).multiply(two.pow(-shift)), BigInteger.ONE);
  }

  /** Square root: exact for squares of rationals, otherwise with a relative error below 2^-110. */
  public static Value RSqrt(Value a) {
    Q x = in(a);
    if (x.n.signum() < 0) throw new RuntimeException("Rat: square root of a negative number");
    BigInteger[] n = x.n.sqrtAndRemainder(), d = x.d.sqrtAndRemainder();
    if (n[1].signum() == 0 && d[1].signum() == 0) return out(mk(n[0], d[0]));
    int shift = Math.max(0, 240 - 2 * ((x.n.bitLength() - x.d.bitLength()) / 2));
    shift += shift & 1;
    BigInteger s = x.n.shiftLeft(shift).divide(x.d).sqrt();
    return out(mk(s, BigInteger.TWO.pow(shift / 2)));
  }

  public static Value RIsSquare(Value a) {
    Q x = in(a);
    if (x.n.signum() < 0) return BoolValue.ValFalse;
    boolean ok = x.n.sqrtAndRemainder()[1].signum() == 0 && x.d.sqrtAndRemainder()[1].signum() == 0;
    return ok ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  /** r - f * p for vectors r and p. */
  public static Value VSubMul(Value r, Value f, Value p) {
    Value[] a = ((TupleValue) r.toTuple()).elems, b = ((TupleValue) p.toTuple()).elems;
    Q q = in(f);
    Value[] c = new Value[a.length];
    for (int i = 0; i < a.length; i++) {
      Q y = in(b[i]);
      c[i] = y.n.signum() == 0 ? a[i] : out(sub(in(a[i]), mul(q, y)));
    }
    return new TupleValue(c);
  }

  /** f * p for a vector p. */
  public static Value VScale(Value f, Value p) {
    Value[] b = ((TupleValue) p.toTuple()).elems;
    Q q = in(f);
    Value[] c = new Value[b.length];
    for (int i = 0; i < b.length; i++) c[i] = out(mul(q, in(b[i])));
    return new TupleValue(c);
  }

  /** Scalar product of two vectors. */
  public static Value VDot(Value r, Value p) {
    Value[] a = ((TupleValue) r.toTuple()).elems, b = ((TupleValue) p.toTuple()).elems;
    Q s = ZERO;
    for (int i = 0; i < a.length; i++) s = add(s, mul(in(a[i]), in(b[i])));
    return out(s);
  }
}
