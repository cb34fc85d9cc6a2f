// A stand-in for elliptic: secp256k1 in affine coordinates, with the library's argument conventions.
"use strict";
const BN = require("./bn.js");
const P = 2n ** 256n - 2n ** 32n - 977n;
const N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141n;
const md = (x) => ((x % P) + P) % P;
function pw(b, e) { let r = 1n; b = md(b); while (e) { if (e & 1n) r = (r * b) % P; b = (b * b) % P; e >>= 1n; } return r; }
const inv = (x) => pw(x, P - 2n);
// Jacobian triples
const dbl = ([x, y, z]) => {
  if (z === 0n || y === 0n) return [1n, 1n, 0n];
  const a = md(x * x), b = md(y * y), c = md(b * b), d = md(2n * ((x + b) * (x + b) - a - c)), e = 3n * a;
  const f = md(e * e - 2n * d);
  return [f, md(e * (d - f) - 8n * c), md(2n * y * z)];
};
const addm = (p, q) => {
  if (p[2] === 0n) return q;
  if (q[2] === 0n) return p;
  const z1 = md(p[2] * p[2]), z2 = md(q[2] * q[2]);
  const u1 = md(p[0] * z2), u2 = md(q[0] * z1), s1 = md(p[1] * q[2] * z2), s2 = md(q[1] * p[2] * z1);
  if (u1 === u2) return s1 === s2 ? dbl(p) : [1n, 1n, 0n];
  const h = md(u2 - u1), r = md(s2 - s1), h2 = md(h * h), h3 = md(h * h2), v = md(u1 * h2);
  const x = md(r * r - h3 - 2n * v);
  return [x, md(r * (v - x) - s1 * h3), md(h * p[2] * q[2])];
};
const num = (x, base) => new BN(x, base).v;
class Point {
  constructor(curve, x, y) {
    this.curve = curve;
    if (x === null) { this.x = null; this.y = null; this.inf = true; } else { this.x = BN.of(md(x)); this.y = BN.of(md(y)); this.inf = false; }
  }
  jac() { return this.inf ? [1n, 1n, 0n] : [this.x.v, this.y.v, 1n]; }
  static from(curve, [x, y, z]) {
    if (z === 0n) return new Point(curve, null, null);
    const i = inv(z), i2 = md(i * i);
    return new Point(curve, x * i2, y * i2 * i);
  }
  isInfinity() { return this.inf; }
  getX() { return this.x.fromRed(); }
  getY() { return this.y.fromRed(); }
  neg() { return this.inf ? this : new Point(this.curve, this.x.v, -this.y.v); }
  add(q) { return Point.from(this.curve, addm(this.jac(), q.jac())); }
  dbl() { return this.add(this); }
  mul(k) {
    let e = num(k, 16);
    const base = e < 0n ? this.neg().jac() : this.jac();
    if (e < 0n) e = -e;
    let acc = [1n, 1n, 0n];
    for (const b of e.toString(2)) { acc = dbl(acc); if (b === "1") acc = addm(acc, base); }
    return Point.from(this.curve, acc);
  }
  mulAdd(k1, p2, k2) { return this.mul(k1).add(p2.mul(k2)); }
  eq(q) { return this === q || (this.inf === q.inf && (this.inf || (this.x.eq(q.x) && this.y.eq(q.y)))); }
  validate() { return this.curve.validate(this); }
  encode(enc, compact) {
    const x = this.getX().toArray("be", 32);
    const a = compact ? [this.getY().isEven() ? 2 : 3].concat(x) : [4].concat(x, this.getY().toArray("be", 32));
    return enc === "hex" ? Buffer.from(a).toString("hex") : a;
  }
  encodeCompressed(enc) { return this.encode(enc, true); }
}
class Curve {
  constructor() {
    this.type = "short";
    this.p = BN.of(P);
    this.n = BN.of(N);
    this.a = new BN(0);
    this.b = new BN(7);
    this.g = new Point(this, 0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798n,
      0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8n);
  }
  point(x, y) { return x === null ? new Point(this, null, null) : new Point(this, num(x, 16), num(y, 16)); }
  pointFromX(x, odd) {
    const v = md(num(x, 16)), w = md(v * v * v + 7n);
    let y = pw(w, (P + 1n) / 4n);
    if (md(y * y) !== w) throw new Error("invalid point");
    const isOdd = (y & 1n) === 1n;
    if ((odd && !isOdd) || (!odd && isOdd)) y = md(-y);
    return new Point(this, v, y);
  }
  validate(p) { return p.inf || md(p.y.v * p.y.v) === md(p.x.v * p.x.v * p.x.v + 7n); }
  decodePoint(bytes, enc) {
    const b = enc === "hex" ? Buffer.from(bytes, "hex") : Buffer.from(bytes);
    if ((b[0] === 4 || b[0] === 6 || b[0] === 7) && b.length === 65) {
      if (b[0] === 6 && b[64] % 2 !== 0) throw new Error("Assertion failed");
      if (b[0] === 7 && b[64] % 2 !== 1) throw new Error("Assertion failed");
      return new Point(this, new BN(b.slice(1, 33)).v, new BN(b.slice(33)).v);
    }
    if ((b[0] === 2 || b[0] === 3) && b.length === 33) return this.pointFromX(new BN(b.slice(1)), b[0] === 3);
    throw new Error("Unknown point format");
  }
}
class KeyPair {
  constructor(ec, o) {
    this.ec = ec;
    this.priv = null;
    this.pub = null;
    if (o.priv !== undefined) this.priv = BN.of(num(o.priv, o.enc === "hex" ? 16 : o.enc || 16)).umod(ec.n);
    if (o.pub !== undefined) {
      const p = o.pub;
      if (p.x || p.y) this.pub = ec.curve.point(p.x, p.y);
      else this.pub = ec.curve.decodePoint(p, o.enc);
    }
  }
  getPublic(compact, enc) {
    if (typeof compact === "string") { enc = compact; compact = null; }
    if (!this.pub) this.pub = this.ec.g.mul(this.priv);
    return enc ? this.pub.encode(enc, compact) : this.pub;
  }
  getPrivate(enc) { return enc === "hex" ? this.priv.toString(16, 2) : this.priv; }
  validate() {
    const p = this.getPublic();
    if (p.isInfinity()) return { result: false, reason: "Invalid public key" };
    if (!p.validate()) return { result: false, reason: "Public key is not a point" };
    if (!p.mul(this.ec.curve.n).isInfinity()) return { result: false, reason: "Public key * N != O" };
    return { result: true, reason: null };
  }
}
class EC {
  constructor(name) {
    if (name !== "secp256k1") throw new Error("Unknown curve " + name);
    this.curve = new Curve();
    this.n = this.curve.n;
    this.nh = this.n.ushrn(1);
    this.g = this.curve.g;
  }
  keyPair(o) { return new KeyPair(this, o); }
  keyFromPublic(pub, enc) { return pub instanceof KeyPair ? pub : new KeyPair(this, { pub, enc }); }
  keyFromPrivate(priv, enc) { return priv instanceof KeyPair ? priv : new KeyPair(this, { priv, enc }); }
  recoverPubKey(msg, sig, j, enc) {
    const e = new BN(msg), r = new BN(sig.r, 16), s = new BN(sig.s, 16);
    const R = this.curve.pointFromX(j >> 1 ? r.add(this.curve.n) : r, j & 1);
    const ri = r.invm(this.n);
    return this.g.mulAdd(this.n.sub(e).mul(ri).umod(this.n), R, s.mul(ri).umod(this.n));
  }
}
module.exports = { ec: EC, curve: { short: Curve } };
