// A stand-in for what the library takes from @ethereumjs/util.
"use strict";
const toBuf = (h) => {
  if (!/^0x[0-9a-fA-F]*$/.test(h)) throw new Error(`Cannot convert string to buffer. toBuffer only supports 0x-prefixed hex strings and this string was given: ${h}`);
  const s = h.slice(2);
  return Buffer.from(s.length % 2 ? "0" + s : s, "hex");
};
const bufferToBigInt = (b) => (b.length ? BigInt("0x" + b.toString("hex")) : 0n);
// r, s and v of a signature; 64 bytes are the compact form of EIP-2098
const fromRpcSig = (sig) => {
  const b = Buffer.from(toBuf(sig));
  let r, s, v;
  if (b.length >= 65) {
    r = b.slice(0, 32); s = b.slice(32, 64); v = bufferToBigInt(b.slice(64));
  } else if (b.length === 64) {
    r = b.slice(0, 32); s = b.slice(32, 64); v = BigInt(s[0] >> 7); s[0] &= 0x7f;
  } else throw new Error("Invalid signature length");
  if (v < 27n) v = v + 27n;
  return { v, r, s };
};
const bigIntToHex = (n) => "0x" + n.toString(16);
const stripHexPrefix = (s) => (s.startsWith("0x") ? s.slice(2) : s);
const setLength = (b, n, right) => { const o = Buffer.alloc(n); if (right) { b.copy(o, 0, 0, n); return o; } return b.length < n ? (b.copy(o, n - b.length), o) : b.slice(-n); };
module.exports = {
  fromRpcSig, bufferToBigInt, bigIntToHex, stripHexPrefix,
  toBuffer: (x) => (typeof x === "string" ? toBuf(x) : typeof x === "bigint" || typeof x === "number" ? toBuf(bigIntToHex(BigInt(x))) : Buffer.from(x)),
  bigIntToBuffer: (n) => toBuf(bigIntToHex(n)),
  bufferToHex: (b) => "0x" + Buffer.from(b).toString("hex"),
  isHexString: (s, n) => typeof s === "string" && /^0x[0-9a-fA-F]*$/.test(s) && (n === undefined || s.length === 2 + 2 * n),
  setLengthLeft: (b, n) => setLength(b, n, false),
  setLengthRight: (b, n) => setLength(b, n, true),
};
