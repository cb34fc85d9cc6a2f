// A stand-in for bn.js: numbers of any size with its argument conventions.
"use strict";
const abs = (x) => (x < 0n ? -x : x);
function parse(str, base) {
  let s = String(str).replace(/\s+/g, ""), neg = false;
  if (s[0] === "-") { neg = true; s = s.slice(1); }
  let v = 0n;
  if (base === 10 && /^[0-9]*$/.test(s)) v = s ? BigInt(s) : 0n;
  else if (base === 16 && /^[0-9a-fA-F]*$/.test(s)) v = s ? BigInt("0x" + s) : 0n;
  else for (const c of s) {
    const d = parseInt(c, 36);
    if (Number.isNaN(d)) throw new Error("Invalid character");
    v = v * BigInt(base) + BigInt(d);
  }
  return neg ? -v : v;
}
class BN {
  constructor(n, base, endian) {
    if (BN.isBN(n)) return n;
    if (base === "le" || base === "be") { endian = base; base = 10; }
    if (base === "hex") base = 16;
    base = base || 10;
    this.red = null;
    if (n === null || n === undefined) this.v = 0n;
    else if (typeof n === "number") {
      if (!Number.isSafeInteger(n)) throw new Error("Assertion failed");
      this.v = BigInt(n);
    } else if (typeof n === "object") {
      if (typeof n.length !== "number") throw new Error("Assertion failed");
      const b = Array.from(n);
      if (endian === "le") b.reverse();
      this.v = b.reduce((a, x) => (a << 8n) | BigInt(x & 255), 0n);
    } else this.v = parse(n, base);
  }
  static of(v) { const r = new BN(0); r.v = v; return r; }
  static isBN(x) { return x instanceof BN; }
  static max(a, b) { return a.cmp(b) > 0 ? a : b; }
  static min(a, b) { return a.cmp(b) < 0 ? a : b; }
  clone() { return BN.of(this.v); }
  copy(d) { d.v = this.v; }
  get negative() { return this.v < 0n ? 1 : 0; }
  toString(base, pad) {
    base = base === "hex" ? 16 : base || 10;
    let s = abs(this.v).toString(base);
    while (pad && s.length % pad !== 0) s = "0" + s;
    return (this.v < 0n ? "-" : "") + s;
  }
  toJSON() { return this.toString(16, 2); }
  toNumber() {
    if (abs(this.v) > BigInt(Number.MAX_SAFE_INTEGER)) throw new Error("Number can only safely store up to 53 bits");
    return Number(this.v);
  }
  byteLength() { return Math.ceil(this.bitLength() / 8); }
  bitLength() { return this.v === 0n ? 0 : abs(this.v).toString(2).length; }
  zeroBits() { let k = 0, x = abs(this.v); if (x === 0n) return 0; while (!(x & 1n)) { x >>= 1n; k++; } return k; }
  toArray(endian, length) {
    const want = Math.max(1, this.byteLength()), n = length || want;
    if (this.byteLength() > n) throw new Error("byte array longer than desired length");
    const out = [];
    let x = abs(this.v);
    for (let i = 0; i < n; i++) { out.push(Number(x & 255n)); x >>= 8n; }
    return endian === "le" ? out : out.reverse();
  }
  toArrayLike(T, endian, length) {
    const a = this.toArray(endian, length);
    return T === Array ? a : T.from(a);
  }
  toBuffer(endian, length) { return Buffer.from(this.toArray(endian, length)); }
  isZero() { return this.v === 0n; }
  isNeg() { return this.v < 0n; }
  isOdd() { return (this.v & 1n) === 1n; }
  isEven() { return !this.isOdd(); }
  neg() { return BN.of(-this.v); }
  abs() { return BN.of(abs(this.v)); }
  add(o) { return BN.of(this.v + o.v); }
  sub(o) { return BN.of(this.v - o.v); }
  mul(o) { return BN.of(this.v * o.v); }
  sqr() { return BN.of(this.v * this.v); }
  pow(o) { return BN.of(this.v ** o.v); }
  div(o) { nz(o); return BN.of(this.v / o.v); }
  mod(o) { nz(o); return BN.of(this.v % o.v); }
  umod(o) { nz(o); const m = abs(o.v); return BN.of(((this.v % m) + m) % m); }
  divmod(o) { return { div: this.div(o), mod: this.mod(o) }; }
  invm(o) {
    let a = this.v < 0n ? this.umod(o).v : this.v, b = o.v, x = 1n, y = 0n;
    while (b !== 0n) { const q = a / b; [a, b] = [b, a - q * b]; [x, y] = [y, x - q * y]; }
    return this.isZero() ? BN.of(0n) : BN.of(x).umod(o);
  }
  gcd(o) { let a = abs(this.v), b = abs(o.v); while (b) [a, b] = [b, a % b]; return BN.of(a); }
  shln(k) { return BN.of(this.v << BigInt(k)); }
  shrn(k) { return BN.of(this.v >> BigInt(k)); }
  ushln(k) { return this.shln(k); }
  ushrn(k) { return this.shrn(k); }
  testn(k) { return ((this.v >> BigInt(k)) & 1n) === 1n; }
  maskn(k) { return BN.of(this.v & ((1n << BigInt(k)) - 1n)); }
  and(o) { return BN.of(this.v & o.v); }
  or(o) { return BN.of(this.v | o.v); }
  xor(o) { return BN.of(this.v ^ o.v); }
  addn(k) { return BN.of(this.v + BigInt(k)); }
  subn(k) { return BN.of(this.v - BigInt(k)); }
  muln(k) { return BN.of(this.v * BigInt(k)); }
  divn(k) { return BN.of(this.v / BigInt(k)); }
  modn(k) { return Number(((this.v % BigInt(k)) + BigInt(k)) % BigInt(k)); }
  modrn(k) { return this.modn(k); }
  cmp(o) { return this.v < o.v ? -1 : this.v > o.v ? 1 : 0; }
  cmpn(k) { return this.cmp(BN.of(BigInt(k))); }
  ucmp(o) { return this.abs().cmp(o.abs()); }
  eq(o) { return this.v === o.v; }
  eqn(k) { return this.v === BigInt(k); }
  lt(o) { return this.v < o.v; }
  lte(o) { return this.v <= o.v; }
  gt(o) { return this.v > o.v; }
  gte(o) { return this.v >= o.v; }
  ltn(k) { return this.v < BigInt(k); }
  gtn(k) { return this.v > BigInt(k); }
  lten(k) { return this.v <= BigInt(k); }
  gten(k) { return this.v >= BigInt(k); }
  egcd(o) {
    let a = this.v, b = o.v, x = [1n, 0n], y = [0n, 1n];
    while (b !== 0n) { const q = a / b; [a, b] = [b, a - q * b]; [x, y] = [y, [x[0] - q * y[0], x[1] - q * y[1]]]; }
    return { a: BN.of(x[0]), b: BN.of(x[1]), gcd: BN.of(a) };
  }
  divRound(o) { const q = this.v / o.v, m = abs(this.v - q * o.v) * 2n; return BN.of(m >= abs(o.v) ? q + (this.v < 0n === o.v < 0n ? 1n : -1n) : q); }
  setn(k, b) { const m = 1n << BigInt(k); this.v = b ? this.v | m : this.v & ~m; return this; }
  bincn(k) { this.v += 1n << BigInt(k); return this; }
  // numbers modulo red.m
  toRed(red) { const r = BN.of(red.m.v === 0n ? this.v : this.umod(red.m).v); r.red = red; return r; }
  fromRed() { return BN.of(this.v); }
  redAdd(o) { return this.add(o).toRed(this.red); }
  redSub(o) { return this.sub(o).toRed(this.red); }
  redMul(o) { return this.mul(o).toRed(this.red); }
  redSqr() { return this.sqr().toRed(this.red); }
  redNeg() { return this.neg().toRed(this.red); }
  redInvm() { return this.invm(this.red.m).toRed(this.red); }
  redShl(k) { return this.shln(k).toRed(this.red); }
  redPow(o) {
    let r = 1n, b = this.v, e = o.v;
    const m = this.red.m.v;
    for (; e > 0n; e >>= 1n) { if (e & 1n) r = (r * b) % m; b = (b * b) % m; }
    return BN.of(r).toRed(this.red);
  }
}
class Red {
  constructor(m) { this.m = m === "k256" ? BN.of(2n ** 256n - 2n ** 32n - 977n) : m; this.prime = null; }
}
function nz(o) { if (o.v === 0n) throw new Error("Assertion failed"); }
for (const f of ["add", "sub", "mul", "neg", "sqr", "addn", "subn", "muln", "shln", "shrn", "ushln", "ushrn", "abs", "and", "or", "xor", "maskn", "divn"])
  BN.prototype["i" + f] = function (o) { this.v = this[f](o).v; return this; };
for (const f of ["Add", "Sub", "Mul", "Sqr"]) BN.prototype["redI" + f.toLowerCase()] = BN.prototype["redI" + f] = BN.prototype["red" + f];
BN.red = BN.mont = (m) => new Red(m);
BN.BN = BN;
module.exports = BN;
