// Evaluation of the operators of Rat.tla with unbounded integers.
// A rational is a tuple <<n, d>>; a component outside 32 bits is a string.
package stl;

import java.math.BigDecimal;
import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public final class RatOverrides implements ITLCOverrides {
  @Override
  public Class[] get() {
    return new Class[] {RatOverrides.class};
  }

  private static final BigInteger MAX = BigInteger.valueOf(Integer.MAX_VALUE);
  private static final BigInteger MIN = BigInteger.valueOf(-Integer.MAX_VALUE);

  // Small numerators/denominators as longs whenever possible.
  private static final class Q {
    final BigInteger n, d; // big form, null if small
    final long sn, sd;
    final boolean small;

    Q(long n, long d) {
      sn = n;
      sd = d;
      small = true;
      this.n = null;
      this.d = null;
    }

    Q(BigInteger n, BigInteger d) {
      this.n = n;
      this.d = d;
      small = false;
      sn = 0;
      sd = 0;
    }

    BigInteger bn() {
      return small ? BigInteger.valueOf(sn) : n;
    }

    BigInteger bd() {
      return small ? BigInteger.valueOf(sd) : d;
    }

    int sign() {
      return small ? Long.signum(sn) : n.signum();
    }

    boolean fin() {
      return small ? sd != 0 : d.signum() != 0;
    }

    boolean nan() {
      return !fin() && sign() == 0;
    }
  }

  private static final Q NAN = new Q(0, 0);
  private static final Q ZERO = new Q(0, 1);

  private static Value comp(BigInteger x) {
    if (x.compareTo(MAX) <= 0 && x.compareTo(MIN) >= 0) return IntValue.gen(x.intValue());
    return new StringValue(x.toString());
  }

  private static Value out(Q q) {
    if (q.small
        && q.sn <= Integer.MAX_VALUE
        && q.sn >= -Integer.MAX_VALUE
        && q.sd <= Integer.MAX_VALUE)
      return new TupleValue(IntValue.gen((int) q.sn), IntValue.gen((int) q.sd));
    return new TupleValue(comp(q.bn()), comp(q.bd()));
  }

  private static BigInteger big(Value v) {
    if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
    return new BigInteger(((StringValue) v).val.toString());
  }

  private static Q in(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null || t.elems.length != 2)
      throw new IllegalArgumentException("not a rational: " + v);
    if (t.elems[0] instanceof IntValue && t.elems[1] instanceof IntValue)
      return new Q(((IntValue) t.elems[0]).val, ((IntValue) t.elems[1]).val);
    return new Q(big(t.elems[0]), big(t.elems[1]));
  }

  private static long gcd(long a, long b) {
    while (b != 0) {
      long c = a % b;
      a = b;
      b = c;
    }
    return a;
  }

  // n/d with longs that are far from overflow (|n| < 2^63, d > 0 or d = 0).
  private static Q norm(long n, long d) {
    if (d == 0) return new Q(Long.signum(n), 0);
    if (d < 0) {
      n = -n;
      d = -d;
    }
    long g = gcd(Math.abs(n), d);
    return new Q(n / g, d / g);
  }

  private static Q norm(BigInteger n, BigInteger d) {
    if (d.signum() == 0) return new Q(n.signum(), 0);
    if (d.signum() < 0) {
      n = n.negate();
      d = d.negate();
    }
    BigInteger g = n.gcd(d);
    if (!g.equals(BigInteger.ONE)) {
      n = n.divide(g);
      d = d.divide(g);
    }
    if (n.bitLength() < 31 && d.bitLength() < 31) return new Q(n.longValue(), d.longValue());
    return new Q(n, d);
  }

  private static boolean narrow(Q q) { // products of two components fit in a long
    return q.small && Math.abs(q.sn) < (1L << 30) && q.sd < (1L << 30);
  }

  private static Q neg(Q a) {
    return a.small ? new Q(-a.sn, a.sd) : new Q(a.n.negate(), a.d);
  }

  private static Q add(Q a, Q b) {
    if (a.nan() || b.nan()) return NAN;
    if (!a.fin()) return (!b.fin() && a.sign() != b.sign()) ? NAN : a;
    if (!b.fin()) return b;
    if (narrow(a) && narrow(b)) return norm(a.sn * b.sd + b.sn * a.sd, a.sd * b.sd);
    return norm(a.bn().multiply(b.bd()).add(b.bn().multiply(a.bd())), a.bd().multiply(b.bd()));
  }

  private static Q mul(Q a, Q b) {
    if (!a.fin() || !b.fin()) return new Q(a.sign() * b.sign(), 0);
    if (narrow(a) && narrow(b)) return norm(a.sn * b.sn, a.sd * b.sd);
    return norm(a.bn().multiply(b.bn()), a.bd().multiply(b.bd()));
  }

  private static Q inv(Q a) {
    if (a.nan()) return a;
    if (!a.fin()) return ZERO;
    return a.small ? norm(a.sd, a.sn) : norm(a.d, a.n);
  }

  private static int cmp(Q a, Q b) { // neither NaN
    if (a.fin() && b.fin()) {
      if (narrow(a) && narrow(b)) return Long.compare(a.sn * b.sd, b.sn * a.sd);
      return a.bn().multiply(b.bd()).compareTo(b.bn().multiply(a.bd()));
    }
    return Integer.compare(a.fin() ? 0 : a.sign(), b.fin() ? 0 : b.sign());
  }

  private static boolean lt(Q a, Q b) {
    return !a.nan() && !b.nan() && cmp(a, b) < 0;
  }

  private static boolean le(Q a, Q b) {
    return !a.nan() && !b.nan() && cmp(a, b) <= 0;
  }

  private static boolean eq(Q a, Q b) {
    return !a.nan() && !b.nan() && cmp(a, b) == 0;
  }

  private static Value bool(boolean b) {
    return b ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  @TLAPlusOperator(identifier = "R", module = "Rat", warn = false)
  public static Value r(Value n, Value d) {
    return out(norm(big(n), big(d)));
  }

  @TLAPlusOperator(identifier = "RIsNaN", module = "Rat", warn = false)
  public static Value isNaN(Value a) {
    return bool(in(a).nan());
  }

  @TLAPlusOperator(identifier = "RIsFin", module = "Rat", warn = false)
  public static Value isFin(Value a) {
    return bool(in(a).fin());
  }

  @TLAPlusOperator(identifier = "RSign", module = "Rat", warn = false)
  public static Value sign(Value a) {
    return IntValue.gen(in(a).sign());
  }

  @TLAPlusOperator(identifier = "RNeg", module = "Rat", warn = false)
  public static Value rneg(Value a) {
    return out(neg(in(a)));
  }

  @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
  public static Value radd(Value a, Value b) {
    return out(add(in(a), in(b)));
  }

  @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
  public static Value rsub(Value a, Value b) {
    return out(add(in(a), neg(in(b))));
  }

  @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
  public static Value rmul(Value a, Value b) {
    return out(mul(in(a), in(b)));
  }

  @TLAPlusOperator(identifier = "RInv", module = "Rat", warn = false)
  public static Value rinv(Value a) {
    return out(inv(in(a)));
  }

  @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
  public static Value rdiv(Value a, Value b) {
    return out(mul(in(a), inv(in(b))));
  }

  @TLAPlusOperator(identifier = "RLt", module = "Rat", warn = false)
  public static Value rlt(Value a, Value b) {
    return bool(lt(in(a), in(b)));
  }

  @TLAPlusOperator(identifier = "RLe", module = "Rat", warn = false)
  public static Value rle(Value a, Value b) {
    return bool(le(in(a), in(b)));
  }

  @TLAPlusOperator(identifier = "REq", module = "Rat", warn = false)
  public static Value req(Value a, Value b) {
    return bool(eq(in(a), in(b)));
  }

  @TLAPlusOperator(identifier = "RSame", module = "Rat", warn = false)
  public static Value rsame(Value a, Value b) {
    Q x = in(a), y = in(b);
    return bool(eq(x, y) || (x.nan() && y.nan()));
  }

  @TLAPlusOperator(identifier = "RMin", module = "Rat", warn = false)
  public static Value rmin(Value a, Value b) {
    return le(in(a), in(b)) ? a : b;
  }

  @TLAPlusOperator(identifier = "RMax", module = "Rat", warn = false)
  public static Value rmax(Value a, Value b) {
    return le(in(b), in(a)) ? a : b;
  }

  @TLAPlusOperator(identifier = "RAbs", module = "Rat", warn = false)
  public static Value rabs(Value a) {
    Q q = in(a);
    return q.sign() < 0 ? out(neg(q)) : a;
  }

  @TLAPlusOperator(identifier = "RPow2", module = "Rat", warn = false)
  public static Value rpow2(Value k) {
    int e = ((IntValue) k).val;
    BigInteger p = BigInteger.ONE.shiftLeft(Math.abs(e));
    return out(e >= 0 ? norm(p, BigInteger.ONE) : norm(BigInteger.ONE, p));
  }

  private static String text(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    StringBuilder s = new StringBuilder();
    for (Value c : t.elems) s.append((char) ((IntValue) c).val);
    return s.toString();
  }

  private static Q ofDouble(double x) {
    if (Double.isNaN(x)) return NAN;
    if (Double.isInfinite(x)) return new Q(x > 0 ? 1 : -1, 0);
    BigDecimal b = new BigDecimal(x);
    return b.scale() <= 0
        ? norm(b.toBigIntegerExact(), BigInteger.ONE)
        : norm(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
  }

  private static final java.util.regex.Pattern DEC =
      java.util.regex.Pattern.compile(
          "-?(inf|nan|([0-9]+(\\.[0-9]*)?|\\.[0-9]+)([eE][+-]?[0-9]+)?)");

  @TLAPlusOperator(identifier = "RDecOk", module = "Rat", warn = false)
  public static Value rdecok(Value v) {
    return bool(DEC.matcher(text(v)).matches());
  }

  @TLAPlusOperator(identifier = "RDec", module = "Rat", warn = false)
  public static Value rdec(Value v) {
    String s = text(v);
    if (s.equals("inf")) return out(new Q(1, 0));
    if (s.equals("-inf")) return out(new Q(-1, 0));
    if (s.equals("nan") || s.equals("-nan")) return out(NAN);
    return out(ofDouble(Double.parseDouble(s)));
  }
}
