// Runs programs of requests against the library's own sources; one request per line in, one event per line out.
"use strict";
const fs = require("fs");
const { StringDecoder } = require("string_decoder");
const path = require("path");

// ---------------------------------------------------------------- the WebAssembly instance
// The module's exports as the glue in packages/lib/src/wasm/wasm.js sees them: a linear memory that grows,
// an allocator, and the three functions, answered by the native build of packages/spartan_wasm or by the
// program.
let wire = null;                     // [to, from] of the native server
function askNative(op, bufs) {
  const head = Buffer.alloc(1 + 4 * bufs.length);
  head[0] = op;
  bufs.forEach((b, i) => head.writeUInt32LE(b.length, 1 + 4 * i));
  const all = Buffer.concat([head, ...bufs.map((b) => Buffer.from(b))]);
  for (let at = 0; at < all.length;) at += fs.writeSync(wire[0], all, at);
  const get = (n) => {
    const b = Buffer.alloc(n);
    for (let at = 0; at < n;) {
      const k = fs.readSync(wire[1], b, at, n - at, null);
      if (k === 0) { console.error("the native server is gone"); process.exit(2); }
      at += k;
    }
    return b;
  };
  const h = get(5);
  return { status: h[0], data: get(h.readUInt32LE(1)) };
}
const calls = [];                    // what crossed the boundary since the last request
let answer = null;                   // the program's answer in place of the native one
let imp = null;
const strObj = (m, s) => {
  const b = Buffer.from(s), p = m.malloc(b.length);
  m.u8().set(b, p);
  m.live--;
  return imp.wbg.__wbindgen_string_new(p, b.length);
};
function makeInstance(imports) {
  imp = imports;
  const memory = new WebAssembly.Memory({ initial: 2 });
  let sp = 60000, brk = 61440;
  const m = {
    u8: () => new Uint8Array(memory.buffer),
    malloc(n) {
      n = Math.max(n >>> 0, 1);
      if (m.live === 0) brk = 61440;              // everything has been freed
      m.live++;
      const at = (brk + 7) & ~7;
      brk = at + n;
      if (brk > memory.buffer.byteLength) memory.grow(Math.ceil((brk - memory.buffer.byteLength) / 65536));
      return at;
    },
    live: 0
  };
  const read = (p, l) => { m.live--; return m.u8().slice(p, p + l); };   // the callee frees its arguments
  const ret = (retptr, words) => {
    const v = new DataView(memory.buffer);
    words.forEach((w, i) => v.setInt32(retptr + 4 * i, w, true));
  };
  const fail = (a) => { if (a.throw === "js") return strObj(m, a.msg || "refused"); throw new WebAssembly.RuntimeError("unreachable"); };
  const bytes = (retptr, a) => {
    if (a.throw) { ret(retptr, [0, 0, fail(a), 1]); return; }
    const p = m.malloc(a.bytes.length);
    m.u8().set(a.bytes, p);
    ret(retptr, [p, a.bytes.length, 0, 0]);
  };
  const native = (op, bufs) => {
    const r = askNative(op, bufs);
    return r.status === 0 ? { bytes: r.data, value: r.data[0] === 1 } : { throw: r.status === 1 ? "js" : "trap" };
  };
  const hexs = (o) => Object.fromEntries(Object.entries(o).map(([k, v]) => [k, Buffer.from(v).toString("hex")]));
  const pick = (fn, op, bufs) => {
    const rec = { fn, ...(bufs.circuit && bufs.circuit.length > 100000 ? { big: bufs.circuit.length, public: Buffer.from(bufs.public).toString("hex") } : hexs(bufs)) };
    calls.push(rec);
    if (answer && fn in answer) {
      const a = answer[fn];
      if (a.throw) return { throw: a.throw };
      if (a.good !== undefined) return { value: a.good.some((g) => g.circuit === rec.circuit && g.proof === rec.proof && g.public === rec.public) };
      if (a.echo) return { bytes: Buffer.concat(Object.values(bufs).map((x) => Buffer.from(x))) };
      return { bytes: a.bytes === undefined ? undefined : Buffer.from(a.bytes, "hex"), value: a.value };
    }
    const r = native(op, Object.values(bufs));
    if (fn === "poseidon" && r.bytes) rec.out = Buffer.from(r.bytes).toString("hex");
    return r;
  };
  return {
    memory,
    init_panic_hook() {},
    __wbindgen_add_to_stack_pointer(d) { sp += d; return sp; },
    __wbindgen_malloc(n) { return m.malloc(n); },
    __wbindgen_free() { m.live--; },
    __wbindgen_realloc(p, o, n) { const q = m.malloc(n); m.u8().copyWithin(q, p, p + o); return q; },
    __wbindgen_exn_store() {},
    poseidon(retptr, p0, l0) { bytes(retptr, pick("poseidon", 1, { in: read(p0, l0) })); },
    prove(retptr, p0, l0, p1, l1, p2, l2) { bytes(retptr, pick("prove", 2, { circuit: read(p0, l0), witness: read(p1, l1), public: read(p2, l2) })); },
    verify(retptr, p0, l0, p1, l1, p2, l2) {
      const a = pick("verify", 3, { circuit: read(p0, l0), proof: read(p1, l1), public: read(p2, l2) });
      if (a.throw) { ret(retptr, [0, fail(a), 1]); return; }
      ret(retptr, [a.value ? 1 : 0, 0, 0]);
    }
  };
}
class FakeModule {}
class FakeInstance { constructor(mod, imports) { this.exports = makeInstance(imports); } }
WebAssembly.Module = FakeModule;
WebAssembly.Instance = FakeInstance;
WebAssembly.compile = async () => new FakeModule();
WebAssembly.instantiate = async (mod, imports) => {
  const instance = new FakeInstance(mod, imports);
  return mod instanceof FakeModule ? instance : { module: new FakeModule(), instance };
};

// ---------------------------------------------------------------- witness generator, files, network
const jsonable = (v) => typeof v === "bigint" ? { n: v.toString(16) } : v instanceof Uint8Array ? { h: Buffer.from(v).toString("hex") }
  : Array.isArray(v) ? v.map(jsonable) : v && typeof v === "object" ? Object.fromEntries(Object.entries(v).map(([k, x]) => [k, jsonable(x)])) : v;
const word = (v) => Buffer.from(BigInt(v).toString(16).padStart(64, "0"), "hex");
let turn = 0;
const wait = async () => {                       // answers come after so many turns of the event loop
  const lag = answer && answer.lag;
  if (lag) for (let k = lag[turn++ % lag.length]; k > 0; k--) await new Promise((f) => setImmediate(f));
};
globalThis.__vt = {
  async calculate(input, wasmFile, out) {
    const rec = { fn: "witness", input: jsonable(input), file: wasmFile };
    calls.push(rec);
    const a = answer && answer.witness;
    if (a && a.throw) throw new Error(a.throw);
    await wait();
    if (a && a.echo) out.data = new Uint8Array(Buffer.concat(["s", "root", "Tx", "Ty", "Ux", "Uy"].map((k) => word(input[k])).concat(input.siblings.flat().map(word), [Buffer.from(input.pathIndices)])));
    else if (a && a.generate) {
      const r = require("child_process").spawnSync(a.generate[0], a.generate.slice(1).concat([wasmFile]), { input: JSON.stringify(rec.input), maxBuffer: 1 << 30 });
      if (r.status === 2) { console.error(r.stderr.toString()); process.exit(2); }
      if (r.status !== 0) throw new Error("Assert Failed. " + r.stderr.toString().slice(0, 200));
      out.data = new Uint8Array(r.stdout);
    } else out.data = new Uint8Array(Buffer.from(a ? a.bytes : "", "hex"));
    if (out.type !== "mem") throw new Error("Invalid FastFile type: " + out.type);
  }
};
const realRead = fs.readFileSync;
globalThis.fetch = async (url) => {
  calls.push({ fn: "fetch", url: String(url) });
  const a = answer && answer.fetch;
  if (!a || a.throw) throw new Error("network");
  await wait();
  if (a.echo) a.bytes = Buffer.from(String(url)).toString("hex");
  const b = Buffer.from(a.bytes, "hex");
  return { ok: true, status: 200, arrayBuffer: async () => b.buffer.slice(b.byteOffset, b.byteOffset + b.length) };
};
console.warn = () => {};
console.time = () => {};
console.timeEnd = () => {};

// ---------------------------------------------------------------- the library
const lib = require("@lib/index.ts");
let utils = {};
try { utils = require("@lib/helpers/utils.ts"); } catch (e) { utils = {}; }
const { PublicInput, CircuitPubInput, computeEffEcdsaPubInput, verifyEffEcdsaPubInput, Tree, Poseidon, MembershipProver, MembershipVerifier } = lib;
const big = (h) => BigInt("0x" + h);
const hx = (n) => n.toString(16);
const buf = (h) => Buffer.from(h, "hex");
const u8 = (h) => new Uint8Array(buf(h));
const hexOf = (b) => Buffer.from(b).toString("hex");
const pubOf = (q) => new PublicInput(big(q.r), big(q.v), buf(q.m), new CircuitPubInput(big(q.root), big(q.Tx), big(q.Ty), big(q.Ux), big(q.Uy)));
const fields = (p) => ({ r: hx(p.r), v: hx(p.rV), m: hexOf(p.msgHash), root: hx(p.circuitPubInput.merkleRoot), Tx: hx(p.circuitPubInput.Tx), Ty: hx(p.circuitPubInput.Ty), Ux: hx(p.circuitPubInput.Ux), Uy: hx(p.circuitPubInput.Uy) });
const proofOf = (q) => ({ root: big(q.root), pathIndices: q.path.slice(), siblings: q.siblings.map((s) => s.map(big)) });
const ofProof = (p) => ({ root: hx(p.root), path: Array.from(p.pathIndices), siblings: p.siblings.map((s) => Array.from(s).map(hx)) });

let trees = {}, actors = {}, poseidon = null;
const ops = {
  reset() { trees = {}; actors = {}; return {}; },
  pub(q) { const o = computeEffEcdsaPubInput(big(q.r), big(q.v), buf(q.m)); return { out: { Tx: hx(o.Tx), Ty: hx(o.Ty), Ux: hx(o.Ux), Uy: hx(o.Uy) } }; },
  check(q) { return { out: verifyEffEcdsaPubInput(pubOf(q)) }; },
  ser(q) {
    const p = pubOf(q), h = p.serialize(), c = p.circuitPubInput.serialize();
    return { h: hexOf(h), c: hexOf(c), back: fields(PublicInput.deserialize(new Uint8Array(h))), intact: JSON.stringify(fields(p)) === JSON.stringify(fields(pubOf(q))) };
  },
  deser(q) {
    const b = u8(q.h), p = PublicInput.deserialize(b);
    return { out: fields(p), h2: hexOf(p.serialize()), c2: hexOf(p.circuitPubInput.serialize()), intact: hexOf(b) === q.h };
  },
  toBytes(q) { const f = q.le ? utils.bigIntToLeBytes : utils.bigIntToBytes; if (!f) return { absent: true }; return { h: hexOf(f(big(q.n), q.size)) }; },
  toInt(q) { const f = q.le ? utils.bytesLeToBigInt : utils.bytesToBigInt; if (!f) return { absent: true }; const b = q.buffer ? buf(q.h) : u8(q.h); return { n: hx(f(b)), intact: hexOf(b) === q.h }; },
  sig(q) { if (!utils.fromSig) return { absent: true }; const o = utils.fromSig(q.sig); return { r: hx(o.r), s: hx(o.s), v: hx(o.v) }; },
  async init() { await lib.init(); poseidon = new Poseidon(); await poseidon.initWasm(); return {}; },
  hash(q) { return { out: hx(poseidon.hash(q.in.map(big))) }; },
  hashpk(q) { return { out: hx(poseidon.hashPubKey(buf(q.h))) }; },
  tree(q) { trees[q.t] = new Tree(q.depth, poseidon); return {}; },
  insert(q) { trees[q.t].insert(big(q.leaf)); return {}; },
  delete(q) { trees[q.t].delete(q.i); return {}; },
  leaves(q) { return { out: trees[q.t].leaves().map(hx) }; },
  root(q) { return { out: hx(trees[q.t].root()) }; },
  indexOf(q) { return { out: trees[q.t].indexOf(big(q.leaf)) }; },
  proof(q) { return { out: ofProof(trees[q.t].createProof(q.i)) }; },
  checkProof(q) { const p = proofOf(q.proof), r = trees[q.t].verifyProof(p, big(q.leaf)); return { out: r }; },
  prover(q) { actors[q.a] = new MembershipProver({ circuit: q.circuit, witnessGenWasm: q.gen, ...(q.profile === undefined ? {} : { enableProfiler: q.profile }), ...(q.remote === undefined ? {} : { useRemoteCircuit: q.remote }) }); return {}; },
  verifier(q) {
    if (q.window) globalThis.window = globalThis;
    try { actors[q.a] = new MembershipVerifier({ circuit: q.circuit, ...(q.profile === undefined ? {} : { enableProfiler: q.profile }), ...(q.remote === undefined ? {} : { useRemoteCircuit: q.remote }) }); } finally { delete globalThis.window; }
    return {};
  },
  async prove(q) {
    if (q.window) globalThis.window = globalThis;
    try {
      const r = await actors[q.a].prove({ sig: q.sig, msgHash: buf(q.m), merkleProof: proofOf(q.proof) });
      const big = r.proof.length > 4096;
      if (q.keep) fs.writeFileSync(q.keep, r.proof);
      return { out: { proof: big ? "" : hexOf(r.proof), ...fields(r.publicInput), h: hexOf(r.publicInput.serialize()) } };
    } finally { delete globalThis.window; }
  },
  async verify(q) {
    const proof = q.pf ? new Uint8Array(realRead(q.pf)) : u8(q.p), pub = u8(q.h);
    let more = {};
    if (q.flip !== undefined) {
      const was = proof.slice();
      proof[q.flip % proof.length] ^= 1 << (q.flip % 8);
      const o = askNative(4, [was, proof]);
      more = { same: o.status === 0 && o.data[0] === 1 };
    }
    const r = await actors[q.a].verify({ proof, publicInputSer: pub });
    return { out: r, intact: hexOf(pub) === q.h, ...more };
  },
  async both(q) {                                // several provers and verifiers at work at once
    turn = 0;
    const one = async (x) => {
      if (x.kind === "verify") return { out: await actors[x.a].verify({ proof: u8(x.p), publicInputSer: u8(x.h) }) };
      const r = await actors[x.a].prove({ sig: x.sig, msgHash: buf(x.m), merkleProof: proofOf(x.proof) });
      return { out: { proof: hexOf(r.proof), ...fields(r.publicInput), h: hexOf(r.publicInput.serialize()) } };
    };
    return { outs: await Promise.all(q.of.map(async (x) => { try { return await one(x); } catch (e) { return { panic: String(e).slice(0, 200) }; } })) };
  }
};

ops.provefor = ops.prove;
ops.judge = ops.verify;
// a prover that goes past the library: its own generator, its own public values
ops.rawprove = (q) => {
  const word = (x) => ({ n: x });
  const input = Object.fromEntries(Object.entries(q.in).map(([k, v]) => [k, k === "pathIndices" ? v : Array.isArray(v) ? v.map(word) : word(v)]));
  const r = require("child_process").spawnSync(q.answer.witness.generate[0], q.answer.witness.generate.slice(1).concat([q.gen]), { input: JSON.stringify(input), maxBuffer: 1 << 30 });
  if (r.status === 2) { console.error(r.stderr.toString()); process.exit(2); }
  if (r.status !== 0) throw new Error("Assert Failed. " + r.stderr.toString().slice(0, 200));
  const pub = Buffer.concat(["root", "Tx", "Ty", "Ux", "Uy"].map((k) => buf(q.in[k].padStart(64, "0"))));
  const o = askNative(2, [realRead(q.circuit), r.stdout, pub]);
  if (o.status !== 0) throw new Error("native");
  fs.writeFileSync(q.keep, o.data);
  return {};
};

async function main() {
  const text = realRead(0).toString();
  for (const line of text.split("\n")) {
    if (!line.trim()) continue;
    const q = JSON.parse(line);
    if (q.op === "wire") { wire = [fs.openSync(q.to, "w"), fs.openSync(q.from, "r")]; process.stdout.write("{}\n"); continue; }
    calls.length = 0;
    answer = q.answer || null;
    let r;
    if (!ops[q.op]) { console.error("request " + q.op); process.exit(2); }
    try { r = await ops[q.op](q); } catch (e) { r = { panic: String((e && e.message) || e).slice(0, 200) }; if (process.env.VT_TRACE) console.error(e); }
    if (calls.length && q.calls !== false) r.calls = calls.slice();
    process.stdout.write(JSON.stringify({ ...q, ...r }) + "\n");
  }
  process.stdout.write("", () => process.exit(0));
}
main();
