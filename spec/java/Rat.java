import java.io.IOException;
import java.math.BigInteger;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.ValueConstants;
import tlc2.value.impl.*;
import tlc2.util.FP64;

/**
 * The operators of Rat.tla on unbounded integers (see there: this class is
 * only a faster and wider evaluation of those definitions).
 */
public class Rat {
  /** A normalised rational, as a TLC value. */
  public static final class V extends Value {
    final BigInteger n, d;
    V(BigInteger n, BigInteger d) {
      if (d.signum() == 0) throw new RuntimeException("Rat: division by zero");
      if (d.signum() > 0 && d.bitCount() == 1) {
        int k = Math.min(n.signum() == 0 ? d.bitLength() - 1 : n.getLowestSetBit(), d.bitLength() - 1);
        if (k > 0) { n = n.shiftRight(k); d = d.shiftRight(k); }
      } else {
        BigInteger g = n.gcd(d);
        if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      }
      this.n = n; this.d = d;
    }
    public byte getKind() { return ValueConstants.USERVALUE; }
    public String getKindString() { return "a rational"; }
    public int compareTo(Object o) {
      if (!(o instanceof V)) throw new RuntimeException("Rat: comparing a rational with " + o);
      V v = (V) o;
      return n.multiply(v.d).compareTo(v.n.multiply(d));
    }
    public boolean equals(Object o) {
      if (o instanceof StringValue) return false;
      if (!(o instanceof V)) throw new RuntimeException("Rat: comparing a rational with " + o);
      V v = (V) o;
      return n.equals(v.n) && d.equals(v.d);
    }
    public boolean member(Value v) { throw new RuntimeException("Rat: a rational has no members"); }
    public boolean isFinite() { throw new RuntimeException("Rat: a rational is not a set"); }
    public Value takeExcept(ValueExcept e) {
      if (e.idx < e.path.length) throw new RuntimeException("Rat: EXCEPT on a rational");
      return e.value;
    }
    public Value takeExcept(ValueExcept[] e) {
      Value r = this;
      for (ValueExcept x : e) r = takeExcept(x);
      return r;
    }
    public int size() { throw new RuntimeException("Rat: size of a rational"); }
    public boolean mutates() { return false; }
    public boolean isNormalized() { return true; }
    public Value normalize() { return this; }
    public boolean isDefined() { return true; }
    public IValue deepCopy() { return this; }
    public boolean assignable(Value v) { return v instanceof V && equals(v); }
    public void write(IValueOutputStream s) throws IOException { throw new IOException("Rat: not storable"); }
    public long fingerPrint(long fp) { return FP64.Extend(fp, text()); }
    public IValue permute(IMVPerm p) { return this; }
    String text() { return d.equals(BigInteger.ONE) ? n.toString() : n.toString() + "/" + d.toString(); }
    public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) { return sb.append(text()); }
  }

  static V v(Value x) {
    if (x instanceof V) return (V) x;
    if (x instanceof IntValue) return new V(BigInteger.valueOf(((IntValue) x).val), BigInteger.ONE);
    throw new RuntimeException("Rat: not a rational: " + x);
  }
  static BigInteger i(Value x) {
    if (x instanceof IntValue) return BigInteger.valueOf(((IntValue) x).val);
    throw new RuntimeException("Rat: not an integer: " + x);
  }
  static int s(Value x) { return i(x).intValue(); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value RQ(Value n, Value d) { return new V(i(n), i(d)); }
  public static Value R(Value n) { return new V(i(n), BigInteger.ONE); }

  static V add(V a, V b) {
    if (a.d.equals(b.d)) return new V(a.n.add(b.n), a.d);
    if (a.d.bitCount() == 1 && b.d.bitCount() == 1) {
      int k = a.d.bitLength() - b.d.bitLength();
      return k > 0 ? new V(a.n.add(b.n.shiftLeft(k)), a.d) : new V(a.n.shiftLeft(-k).add(b.n), b.d);
    }
    return new V(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
  }
  static V mul(V a, V b) { return new V(a.n.multiply(b.n), a.d.multiply(b.d)); }
  static V neg(V a) { return new V(a.n.negate(), a.d); }

  public static Value RAdd(Value a, Value b) { return add(v(a), v(b)); }
  public static Value RSub(Value a, Value b) { return add(v(a), neg(v(b))); }
  public static Value RMul(Value a, Value b) { return mul(v(a), v(b)); }
  public static Value RDiv(Value a, Value b) { V x = v(a), y = v(b); return new V(x.n.multiply(y.d), x.d.multiply(y.n)); }
  public static Value RNeg(Value a) { return neg(v(a)); }
  public static Value RAbs(Value a) { V x = v(a); return new V(x.n.abs(), x.d); }
  public static Value RLe(Value a, Value b) { return b(v(a).compareTo(v(b)) <= 0); }
  public static Value RLt(Value a, Value b) { return b(v(a).compareTo(v(b)) < 0); }
  public static Value REq(Value a, Value b) { return b(v(a).equals(v(b))); }
  public static Value RSign(Value a) { return IntValue.gen(v(a).n.signum()); }

  static BigInteger floor(BigInteger n, BigInteger d) {
    BigInteger[] qr = n.divideAndRemainder(d);
    return qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
  }
  public static Value RFloor(Value a) { V x = v(a); return new V(floor(x.n, x.d), BigInteger.ONE); }
  public static Value RToInt(Value a) { V x = v(a); return IntValue.gen(floor(x.n, x.d).intValueExact()); }

  static Value[] seq(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    if (t == null) throw new RuntimeException("Rat: not a sequence: " + s);
    return t.elems;
  }
  public static Value RSum(Value s) {
    V r = new V(BigInteger.ZERO, BigInteger.ONE);
    for (Value x : seq(s)) r = add(r, v(x));
    return r;
  }
  public static Value RDot(Value s, Value t) {
    Value[] x = seq(s), y = seq(t);
    V r = new V(BigInteger.ZERO, BigInteger.ONE);
    for (int k = 0; k < x.length; k++) r = add(r, mul(v(x[k]), v(y[k])));
    return r;
  }
  static V pow2(int k) {
    return k >= 0 ? new V(BigInteger.ONE.shiftLeft(k), BigInteger.ONE) : new V(BigInteger.ONE, BigInteger.ONE.shiftLeft(-k));
  }
  public static Value RPow2(Value k) { return pow2(s(k)); }
  public static Value RRnd(Value a, Value bits) {
    V x = v(a);
    int b = s(bits);
    if (b < 0) return mul(new V(floor(x.n, x.d.shiftLeft(-b)), BigInteger.ONE), pow2(-b));
    return new V(floor(x.n.shiftLeft(b), x.d), BigInteger.ONE.shiftLeft(b));
  }
  public static Value RSqrt(Value a, Value bits) {
    V x = v(a);
    int b = s(bits);
    if (x.n.signum() < 0) throw new RuntimeException("Rat: square root of " + x.text());
    return new V(floor(x.n.shiftLeft(2 * b), x.d).sqrt(), BigInteger.ONE.shiftLeft(b));
  }

  static V parse(String s) {
    int slash = s.indexOf('/');
    if (slash >= 0) return new V(new BigInteger(s.substring(0, slash)), new BigInteger(s.substring(slash + 1)));
    if (s.indexOf('x') < 0) return new V(new BigInteger(s), BigInteger.ONE);
    boolean neg = s.startsWith("-");
    if (neg || s.startsWith("+")) s = s.substring(1);
    int p = s.indexOf('p');
    int e = Integer.parseInt(s.charAt(p + 1) == '+' ? s.substring(p + 2) : s.substring(p + 1));
    String m = s.substring(2, p);
    int dot = m.indexOf('.');
    if (dot >= 0) { e -= 4 * (m.length() - dot - 1); m = m.substring(0, dot) + m.substring(dot + 1); }
    BigInteger k = new BigInteger(m, 16);
    if (neg) k = k.negate();
    return mul(new V(k, BigInteger.ONE), pow2(e));
  }
  public static Value RX(Value s) { return parse(((StringValue) s).toUnquotedString()); }
  public static Value RStr(Value a) { return new StringValue(v(a).text()); }

  public static Value Force(Value x) {
    if (x instanceof V || x instanceof IntValue || x instanceof StringValue || x instanceof BoolValue) return x;
    Value t = x.toTuple();
    if (t != null) {
      Value[] e = ((TupleValue) t).elems;
      Value[] f = new Value[e.length];
      for (int k = 0; k < e.length; k++) f[k] = Force(e[k]);
      return new TupleValue(f);
    }
    if (x instanceof RecordValue) {
      RecordValue r = (RecordValue) x;
      Value[] f = new Value[r.values.length];
      for (int k = 0; k < f.length; k++) f[k] = Force(r.values[k]);
      return new RecordValue(r.names, f, r.isNormalized());
    }
    Value c = x.toFcnRcd();
    if (c instanceof FcnRcdValue) {
      FcnRcdValue r = (FcnRcdValue) c;
      r.normalize();
      for (int k = 0; k < r.values.length; k++) r.values[k] = Force(r.values[k]);
      return r;
    }
    x.deepNormalize();
    return x;
  }
}
