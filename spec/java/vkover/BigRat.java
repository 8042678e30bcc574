package vkover;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Exact rational arithmetic for the TLA+ module BigRat. A rational is the TLA+ string "n" or "n/d" in lowest terms
 * (the format of Python's str(Fraction)).
 */
public final class BigRat {
  private static final MathContext MC = new MathContext(40);

  /** A string value that remembers the number it denotes (so that chained operations do not parse). */
  static final class Rat extends StringValue {
    final BigInteger n;
    final BigInteger d;

    Rat(BigInteger n, BigInteger d) {
      super(d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d);
      this.n = n;
      this.d = d;
    }
  }

  private static Rat mk(BigInteger n, BigInteger d) {
    if (d.signum() == 0) throw new ArithmeticException("BigRat: division by zero");
    if (d.signum() < 0) {
      n = n.negate();
      d = d.negate();
    }
    BigInteger g = n.gcd(d);
    if (!g.equals(BigInteger.ONE)) {
      n = n.divide(g);
      d = d.divide(g);
    }
    return new Rat(n, d);
  }

  private static BigInteger[] parse(Value v) {
    if (v instanceof Rat) return new BigInteger[] {((Rat) v).n, ((Rat) v).d};
    if (v instanceof IntValue)
      return new BigInteger[] {BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE};
    String s = ((StringValue) v).val.toString();
    int i = s.indexOf('/');
    if (i < 0) return new BigInteger[] {new BigInteger(s), BigInteger.ONE};
    return new BigInteger[] {new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1))};
  }

  private static Value[] elems(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    return t.elems;
  }

  static double toDouble(BigInteger[] a) {
    return new BigDecimal(a[0]).divide(new BigDecimal(a[1]), MC).doubleValue();
  }

  private static Rat ofDouble(double x) {
    if (Double.isNaN(x) || Double.isInfinite(x)) throw new ArithmeticException("BigRat: not finite");
    BigDecimal b = new BigDecimal(x);
    BigInteger u = b.unscaledValue();
    int s = b.scale();
    return s >= 0 ? mk(u, BigInteger.TEN.pow(s)) : mk(u.multiply(BigInteger.TEN.pow(-s)), BigInteger.ONE);
  }

  @TLAPlusOperator(identifier = "IsRat", module = "BigRat", warn = false)
  public static Value isRat(Value v) {
    if (v instanceof Rat) return BoolValue.ValTrue;
    if (!(v instanceof StringValue)) return BoolValue.ValFalse;
    String s = ((StringValue) v).val.toString();
    int n = s.length();
    if (n == 0) return BoolValue.ValFalse;
    char c = s.charAt(n - 1);
    char c0 = s.charAt(0) == '-' && n > 1 ? s.charAt(1) : s.charAt(0);
    return (c >= '0' && c <= '9' && c0 >= '0' && c0 <= '9') ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  @TLAPlusOperator(identifier = "RInt", module = "BigRat", warn = false)
  public static Value rint(Value a) {
    BigInteger[] x = parse(a);
    return mk(x[0], x[1]);
  }

  @TLAPlusOperator(identifier = "RAdd", module = "BigRat", warn = false)
  public static Value add(Value a, Value b) {
    BigInteger[] x = parse(a), y = parse(b);
    return mk(x[0].multiply(y[1]).add(y[0].multiply(x[1])), x[1].multiply(y[1]));
  }

  @TLAPlusOperator(identifier = "RSub", module = "BigRat", warn = false)
  public static Value sub(Value a, Value b) {
    BigInteger[] x = parse(a), y = parse(b);
    return mk(x[0].multiply(y[1]).subtract(y[0].multiply(x[1])), x[1].multiply(y[1]));
  }

  @TLAPlusOperator(identifier = "RMul", module = "BigRat", warn = false)
  public static Value mul(Value a, Value b) {
    BigInteger[] x = parse(a), y = parse(b);
    return mk(x[0].multiply(y[0]), x[1].multiply(y[1]));
  }

  @TLAPlusOperator(identifier = "RDiv", module = "BigRat", warn = false)
  public static Value div(Value a, Value b) {
    BigInteger[] x = parse(a), y = parse(b);
    return mk(x[0].multiply(y[1]), x[1].multiply(y[0]));
  }

  private static int cmp(BigInteger[] x, BigInteger[] y) {
    return x[0].multiply(y[1]).compareTo(y[0].multiply(x[1]));
  }

  @TLAPlusOperator(identifier = "RLe", module = "BigRat", warn = false)
  public static Value le(Value a, Value b) {
    return cmp(parse(a), parse(b)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  @TLAPlusOperator(identifier = "RLt", module = "BigRat", warn = false)
  public static Value lt(Value a, Value b) {
    return cmp(parse(a), parse(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  /** Natural logarithm, correct to about 1e-16 (absolute for arguments near one). */
  @TLAPlusOperator(identifier = "RLn", module = "BigRat", warn = false)
  public static Value ln(Value a) {
    BigInteger[] x = parse(a);
    if (x[0].signum() <= 0) throw new ArithmeticException("BigRat: ln of a non-positive number");
    int e = x[0].bitLength() - x[1].bitLength();
    BigInteger[] y = e >= 0
        ? new BigInteger[] {x[0], x[1].shiftLeft(e)}
        : new BigInteger[] {x[0].shiftLeft(-e), x[1]};
    return ofDouble(Math.log(toDouble(y)) + e * Math.log(2.0));
  }

  @TLAPlusOperator(identifier = "RExp", module = "BigRat", warn = false)
  public static Value exp(Value a) {
    return ofDouble(Math.exp(toDouble(parse(a))));
  }

  /** Sum of a sequence of rationals. */
  @TLAPlusOperator(identifier = "RSum", module = "BigRat", warn = false)
  public static Value sum(Value s) {
    BigInteger n = BigInteger.ZERO, d = BigInteger.ONE;
    for (Value v : elems(s)) {
      BigInteger[] y = parse(v);
      if (d.equals(y[1])) {
        n = n.add(y[0]);
      } else {
        n = n.multiply(y[1]).add(y[0].multiply(d));
        d = d.multiply(y[1]);
      }
    }
    return mk(n, d);
  }

  /** A rational within a relative distance of 2^-80 of a with a short representation. */
  @TLAPlusOperator(identifier = "RShort", module = "BigRat", warn = false)
  public static Value rshort(Value a) {
    BigInteger[] x = parse(a);
    if (x[0].bitLength() + x[1].bitLength() < 200 || x[0].signum() == 0) return mk(x[0], x[1]);
    int e = x[0].bitLength() - x[1].bitLength() - 84;
    BigInteger q = e >= 0 ? x[0].divide(x[1].shiftLeft(e)) : x[0].shiftLeft(-e).divide(x[1]);
    return e >= 0 ? mk(q.shiftLeft(e), BigInteger.ONE) : mk(q, BigInteger.ONE.shiftLeft(-e));
  }

  /** |a - b| <= atol + rtol * max(|a|, |b|). */
  @TLAPlusOperator(identifier = "RNear", module = "BigRat", warn = false)
  public static Value near(Value a, Value b, Value rtol, Value atol) {
    BigInteger[] x = parse(a), y = parse(b), r = parse(rtol), t = parse(atol);
    BigInteger l = x[0].multiply(y[1]).subtract(y[0].multiply(x[1])).abs();
    BigInteger m = x[0].multiply(y[1]).abs().max(y[0].multiply(x[1]).abs());
    BigInteger den = x[1].multiply(y[1]);
    // l/den <= t + r*m/den
    BigInteger lhs = l.multiply(t[1]).multiply(r[1]);
    BigInteger rhs = t[0].multiply(den).multiply(r[1]).add(r[0].multiply(m).multiply(t[1]));
    return lhs.compareTo(rhs) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  private static long mix(long z) {
    z = (z ^ (z >>> 30)) * 0xbf58476d1ce4e5b9L;
    z = (z ^ (z >>> 27)) * 0x94d049bb133111ebL;
    return z ^ (z >>> 31);
  }

  /** An arbitrary but fixed function from sequences of integers to 0..n-1. */
  @TLAPlusOperator(identifier = "Hash", module = "BigRat", warn = false)
  public static Value hash(Value seq, Value n) {
    long h = 0x9e3779b97f4a7c15L;
    for (Value v : elems(seq)) h = mix(h + 0x9e3779b97f4a7c15L + ((IntValue) v).val * 0x632be59bd9b4e019L);
    int m = ((IntValue) n).val;
    return IntValue.gen((int) Long.remainderUnsigned(mix(h), m));
  }
}
