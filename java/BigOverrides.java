import java.math.BigInteger;
import java.util.ArrayList;
import java.util.List;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/**
 * Evaluates the operators of modules Big and Ec (spec/Big.tla, spec/Ec.tla) on numbers of any size.
 * A number is either a TLA+ integer or a string of lower-case hexadecimal digits without leading
 * zeros ("0" for zero, a leading '-' for negative ones).  An operator applied to integers only
 * answers with an integer, otherwise with a string.  MC_Big.tla / MC_Ec.tla compare these with the
 * TLA+ definitions they replace.
 */
public class BigOverrides implements ITLCOverrides {
  public Class[] get() {
    return new Class[] { BigOverrides.class };
  }

  static BigInteger big(Value v) {
    if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
    if (v instanceof StringValue) return new BigInteger(((StringValue) v).val.toString(), 16);
    throw new RuntimeException("not a number: " + v);
  }

  static Value str(BigInteger b) {
    return new StringValue(b.toString(16));
  }

  static Value out(BigInteger r, Value... args) {
    for (Value v : args) if (v instanceof StringValue) return str(r);
    return IntValue.gen(r.intValueExact());
  }

  static int i(Value v) {
    return big(v).intValueExact();
  }

  static String s(Value v) {
    return ((StringValue) v).val.toString();
  }

  static Value force(Value v) {
    if (v instanceof FcnLambdaValue) {
      Value t = v.toTuple();
      v = t != null ? t : (Value) v.toFcnRcd();
    }
    if (v instanceof TupleValue) {
      Value[] e = ((TupleValue) v).elems;
      for (int k = 0; k < e.length; k++) e[k] = force(e[k]);
    } else if (v instanceof FcnRcdValue) {
      Value[] e = ((FcnRcdValue) v).values;
      for (int k = 0; k < e.length; k++) e[k] = force(e[k]);
    } else if (v instanceof RecordValue) {
      Value[] e = ((RecordValue) v).values;
      for (int k = 0; k < e.length; k++) e[k] = force(e[k]);
    }
    return v;
  }

  /** the same value, evaluated now */
  @TLAPlusOperator(identifier = "Now", module = "Big", warn = false)
  public static Value now(Value v) { return force(v); }

  @TLAPlusOperator(identifier = "BOf", module = "Big", warn = false)
  public static Value bOf(Value a) { return str(big(a)); }

  @TLAPlusOperator(identifier = "BAdd", module = "Big", warn = false)
  public static Value add(Value a, Value b) { return out(big(a).add(big(b)), a, b); }

  @TLAPlusOperator(identifier = "BSub", module = "Big", warn = false)
  public static Value sub(Value a, Value b) { return out(big(a).subtract(big(b)), a, b); }

  @TLAPlusOperator(identifier = "BMul", module = "Big", warn = false)
  public static Value mul(Value a, Value b) { return out(big(a).multiply(big(b)), a, b); }

  @TLAPlusOperator(identifier = "BMod", module = "Big", warn = false)
  public static Value mod(Value a, Value b) { return out(big(a).mod(big(b)), a, b); }

  @TLAPlusOperator(identifier = "BDiv", module = "Big", warn = false)
  public static Value div(Value a, Value b) {
    BigInteger x = big(a), y = big(b);
    return out(x.subtract(x.mod(y)).divide(y), a, b);
  }

  @TLAPlusOperator(identifier = "BLt", module = "Big", warn = false)
  public static Value lt(Value a, Value b) { return big(a).compareTo(big(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }

  @TLAPlusOperator(identifier = "BPowMod", module = "Big", warn = false)
  public static Value powmod(Value b, Value e, Value m) { return out(big(b).modPow(big(e), big(m)), b, e, m); }

  @TLAPlusOperator(identifier = "BInvMod", module = "Big", warn = false)
  public static Value invmod(Value a, Value m) {
    BigInteger x = big(a).mod(big(m));
    BigInteger r = x.gcd(big(m)).equals(BigInteger.ONE) ? x.modInverse(big(m)) : BigInteger.ZERO;
    return out(r, a, m);
  }

  @TLAPlusOperator(identifier = "BSqrt", module = "Big", warn = false)
  public static Value sqrt(Value a, Value m) {
    BigInteger p = big(m), x = big(a).mod(p), r = sqrtMod(x, p);
    if (!r.multiply(r).mod(p).equals(x)) throw new RuntimeException("not a square: " + x);
    return out(r.min(p.subtract(r).mod(p)), a, m);
  }

  // Tonelli-Shanks
  static BigInteger sqrtMod(BigInteger a, BigInteger p) {
    BigInteger one = BigInteger.ONE, q = p.subtract(one);
    if (a.signum() == 0) return a;
    int s = q.getLowestSetBit();
    q = q.shiftRight(s);
    BigInteger z = BigInteger.TWO;
    while (z.modPow(p.shiftRight(1), p).equals(one)) z = z.add(one);
    BigInteger c = z.modPow(q, p), t = a.modPow(q, p), r = a.modPow(q.add(one).shiftRight(1), p);
    int m = s;
    while (!t.equals(one)) {
      int i = 0;
      for (BigInteger u = t; !u.equals(one); i++) {
        if (i >= m) return BigInteger.ZERO;
        u = u.multiply(u).mod(p);
      }
      BigInteger b = c;
      for (int k = 0; k < m - i - 1; k++) b = b.multiply(b).mod(p);
      m = i;
      c = b.multiply(b).mod(p);
      t = t.multiply(c).mod(p);
      r = r.multiply(b).mod(p);
    }
    return r;
  }

  @TLAPlusOperator(identifier = "BBit", module = "Big", warn = false)
  public static Value bit(Value a, Value k) { return IntValue.gen(big(a).testBit(i(k)) ? 1 : 0); }

  @TLAPlusOperator(identifier = "BLen", module = "Big", warn = false)
  public static Value len(Value a) { return IntValue.gen(big(a).bitLength()); }

  @TLAPlusOperator(identifier = "BPow2", module = "Big", warn = false)
  public static Value pow2(Value k) { return str(BigInteger.ONE.shiftLeft(i(k))); }

  @TLAPlusOperator(identifier = "BXor", module = "Big", warn = false)
  public static Value xor(Value a, Value b) { return out(big(a).xor(big(b)), a, b); }

  @TLAPlusOperator(identifier = "BAnd", module = "Big", warn = false)
  public static Value and(Value a, Value b) { return out(big(a).and(big(b)), a, b); }

  @TLAPlusOperator(identifier = "BBits", module = "Big", warn = false)
  public static Value bits(Value a, Value n) {
    BigInteger x = big(a);
    Value[] r = new Value[i(n)];
    for (int k = 0; k < r.length; k++) r[k] = IntValue.gen(x.testBit(k) ? 1 : 0);
    return new TupleValue(r);
  }

  /** as a TLC integer, -1 when it does not fit */
  @TLAPlusOperator(identifier = "BInt", module = "Big", warn = false)
  public static Value bInt(Value a) {
    BigInteger x = big(a);
    return IntValue.gen(x.bitLength() < 31 ? x.intValue() : -1);
  }

  // ---- byte strings: a string of hex digits, two per byte, first byte first
  static byte[] unhex(String h) {
    byte[] r = new byte[h.length() / 2];
    for (int k = 0; k < r.length; k++) r[k] = (byte) Integer.parseInt(h.substring(2 * k, 2 * k + 2), 16);
    return r;
  }

  static String rev(String h) {
    StringBuilder sb = new StringBuilder();
    for (int k = h.length() - 2; k >= 0; k -= 2) sb.append(h, k, k + 2);
    return sb.toString();
  }

  static String be(BigInteger x, int n) {
    StringBuilder sb = new StringBuilder(x.toString(16));
    while (sb.length() < 2 * n) sb.insert(0, '0');
    if (sb.length() > 2 * n) throw new RuntimeException("does not fit in " + n + " bytes: " + x);
    return sb.toString();
  }

  @TLAPlusOperator(identifier = "BFromBE", module = "Big", warn = false)
  public static Value fromBE(Value h) { return str(s(h).isEmpty() ? BigInteger.ZERO : new BigInteger(s(h), 16)); }

  @TLAPlusOperator(identifier = "BFromLE", module = "Big", warn = false)
  public static Value fromLE(Value h) { return str(s(h).isEmpty() ? BigInteger.ZERO : new BigInteger(rev(s(h)), 16)); }

  @TLAPlusOperator(identifier = "BToBE", module = "Big", warn = false)
  public static Value toBE(Value a, Value n) { return new StringValue(be(big(a), i(n))); }

  @TLAPlusOperator(identifier = "BToLE", module = "Big", warn = false)
  public static Value toLE(Value a, Value n) { return new StringValue(rev(be(big(a), i(n)))); }

  @TLAPlusOperator(identifier = "HexLen", module = "Big", warn = false)
  public static Value hexLen(Value h) { return IntValue.gen(s(h).length() / 2); }

  /** bytes a..b-1 (counted from 0) */
  @TLAPlusOperator(identifier = "HexSub", module = "Big", warn = false)
  public static Value hexSub(Value h, Value a, Value b) { return new StringValue(s(h).substring(2 * i(a), 2 * i(b))); }

  @TLAPlusOperator(identifier = "HexCat", module = "Big", warn = false)
  public static Value hexCat(Value a, Value b) { return new StringValue(s(a) + s(b)); }

  /** the bytes of an ASCII string */
  @TLAPlusOperator(identifier = "HexOf", module = "Big", warn = false)
  public static Value hexOf(Value a) {
    StringBuilder sb = new StringBuilder();
    for (char c : s(a).toCharArray()) sb.append(String.format("%02x", (int) c));
    return new StringValue(sb.toString());
  }

  // ---- elliptic curve y^2 = x^3 + a x + b over F_p, points <<>> (infinity) or <<x, y>>
  static BigInteger[] pt(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t.elems.length == 0) return null;
    return new BigInteger[] { big(t.elems[0]), big(t.elems[1]) };
  }

  static boolean strs(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    return t.elems.length > 0 && t.elems[0] instanceof StringValue;
  }

  static Value ofPt(BigInteger[] q, boolean asStr) {
    if (q == null) return new TupleValue(new Value[0]);
    if (asStr) return new TupleValue(new Value[] { str(q[0]), str(q[1]) });
    return new TupleValue(new Value[] { IntValue.gen(q[0].intValueExact()), IntValue.gen(q[1].intValueExact()) });
  }

  static BigInteger[] ecAdd(BigInteger p, BigInteger a, BigInteger[] P, BigInteger[] Q) {
    if (P == null) return Q;
    if (Q == null) return P;
    BigInteger l;
    if (P[0].equals(Q[0])) {
      if (P[1].add(Q[1]).mod(p).signum() == 0) return null;
      l = P[0].multiply(P[0]).multiply(BigInteger.valueOf(3)).add(a).multiply(P[1].shiftLeft(1).modInverse(p)).mod(p);
    } else {
      l = Q[1].subtract(P[1]).multiply(Q[0].subtract(P[0]).modInverse(p)).mod(p);
    }
    BigInteger x = l.multiply(l).subtract(P[0]).subtract(Q[0]).mod(p);
    return new BigInteger[] { x, l.multiply(P[0].subtract(x)).subtract(P[1]).mod(p) };
  }

  // Jacobian doubling/adding for scalar multiples
  static BigInteger[] jdbl(BigInteger p, BigInteger a, BigInteger[] P) {
    if (P == null || P[1].signum() == 0) return null;
    BigInteger y2 = P[1].multiply(P[1]).mod(p);
    BigInteger s = P[0].multiply(y2).shiftLeft(2).mod(p);
    BigInteger z2 = P[2].multiply(P[2]).mod(p);
    BigInteger m = P[0].multiply(P[0]).multiply(BigInteger.valueOf(3)).add(a.multiply(z2).multiply(z2)).mod(p);
    BigInteger x = m.multiply(m).subtract(s.shiftLeft(1)).mod(p);
    BigInteger y = m.multiply(s.subtract(x)).subtract(y2.multiply(y2).shiftLeft(3)).mod(p);
    return new BigInteger[] { x, y, P[1].multiply(P[2]).shiftLeft(1).mod(p) };
  }

  static BigInteger[] jadd(BigInteger p, BigInteger a, BigInteger[] P, BigInteger[] Q) {
    if (P == null) return Q;
    if (Q == null) return P;
    BigInteger z1 = P[2].multiply(P[2]).mod(p), z2 = Q[2].multiply(Q[2]).mod(p);
    BigInteger u1 = P[0].multiply(z2).mod(p), u2 = Q[0].multiply(z1).mod(p);
    BigInteger s1 = P[1].multiply(z2).multiply(Q[2]).mod(p), s2 = Q[1].multiply(z1).multiply(P[2]).mod(p);
    if (u1.equals(u2)) return s1.equals(s2) ? jdbl(p, a, P) : null;
    BigInteger h = u2.subtract(u1).mod(p), r = s2.subtract(s1).mod(p);
    BigInteger h2 = h.multiply(h).mod(p), h3 = h2.multiply(h).mod(p), u = u1.multiply(h2).mod(p);
    BigInteger x = r.multiply(r).subtract(h3).subtract(u.shiftLeft(1)).mod(p);
    BigInteger y = r.multiply(u.subtract(x)).subtract(s1.multiply(h3)).mod(p);
    return new BigInteger[] { x, y, h.multiply(P[2]).multiply(Q[2]).mod(p) };
  }

  static BigInteger[] toJ(BigInteger[] P) {
    return P == null ? null : new BigInteger[] { P[0], P[1], BigInteger.ONE };
  }

  static BigInteger[] toA(BigInteger p, BigInteger[] P) {
    if (P == null) return null;
    BigInteger zi = P[2].modInverse(p), z2 = zi.multiply(zi).mod(p);
    return new BigInteger[] { P[0].multiply(z2).mod(p), P[1].multiply(z2).multiply(zi).mod(p) };
  }

  static BigInteger[] jmul(BigInteger p, BigInteger a, BigInteger k, BigInteger[] P) {
    BigInteger[] r = null, j = toJ(P);
    for (int b = k.bitLength() - 1; b >= 0; b--) {
      r = jdbl(p, a, r);
      if (k.testBit(b)) r = jadd(p, a, r, j);
    }
    return r;
  }

  @TLAPlusOperator(identifier = "EcAdd", module = "Ec", warn = false)
  public static Value ecAdd(Value p, Value a, Value P, Value Q) {
    return ofPt(ecAdd(big(p), big(a), pt(P), pt(Q)), strs(P) || strs(Q));
  }

  @TLAPlusOperator(identifier = "EcMul", module = "Ec", warn = false)
  public static Value ecMul(Value p, Value a, Value k, Value P) {
    return ofPt(toA(big(p), jmul(big(p), big(a), big(k), pt(P))), strs(P));
  }

  @TLAPlusOperator(identifier = "EcMsm", module = "Ec", warn = false)
  public static Value ecMsm(Value p, Value a, Value ks, Value ps) {
    TupleValue k = (TupleValue) ks.toTuple(), q = (TupleValue) ps.toTuple();
    BigInteger P = big(p), A = big(a);
    boolean st = p instanceof StringValue;
    int n = Math.min(k.elems.length, q.elems.length), maxb = 0;
    BigInteger[][] js = new BigInteger[n][];
    BigInteger[] kk = new BigInteger[n];
    for (int t = 0; t < n; t++) {
      js[t] = toJ(pt(q.elems[t]));
      kk[t] = big(k.elems[t]);
      maxb = Math.max(maxb, kk[t].bitLength());
    }
    BigInteger[] r = null;
    for (int b = maxb - 1; b >= 0; b--) {
      r = jdbl(P, A, r);
      for (int t = 0; t < n; t++) if (kk[t].testBit(b)) r = jadd(P, A, r, js[t]);
    }
    return ofPt(toA(P, r), st);
  }
}
