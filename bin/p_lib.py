"""C24-C27: the TypeScript library, run from its own sources under node, against spec/TraceLib.tla."""
import json, os, re, shutil, subprocess, tempfile, threading
import vt
from vt import hx, ToolError
from p_circ import add, mul, neg, lift, by_y, specials, G, O, P, Q

CONST = {"BIG": True, "P": hx(P), "Q": hx(Q), "B7": "7", "G": [hx(G[0]), hx(G[1])], "W": 32, "FullRounds": 8, "PartialRounds": 56, "Bits": 256}
SUBST = {"Enc": "BToBE", "Dec": "BFromBE", "Cat": "HexCat", "Part": "HexSub", "Size": "HexLen", "MH": "PH", "MZero": "PZero"}


def bundle():
    """the library's sources as they are now, bundled with the stand-ins for its packages"""
    out = os.path.join(vt.BUILD, "lib", "run-%d.js" % os.getpid())
    os.makedirs(os.path.dirname(out), exist_ok=True)
    r = vt.sh(["node", os.path.join(vt.VERIF, "harness/lib/bundle.js"), vt.REPO, out], timeout=120)
    if r.returncode:
        raise ToolError("bundle of packages/lib: " + r.stderr.decode()[-2000:])
    return out


class Lib:
    """one bundle; programs run in several processes, each with a native server for the compiled module"""
    def __init__(self):
        self.native, _ = vt.build("full", "drv_wasm")
        self.js = bundle()
        self.dir = tempfile.mkdtemp(prefix="vt-lib-")

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        if os.path.exists(self.js):
            os.unlink(self.js)

    def path(self, name, data):
        f = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "wb") as h:
            h.write(data)
        return f

    def one(self, reqs, tag, timeout):
        a, b = os.path.join(self.dir, "to-%s" % tag), os.path.join(self.dir, "from-%s" % tag)
        os.mkfifo(a)
        os.mkfifo(b)
        srv = subprocess.Popen([self.native, a, b], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        try:
            data = "\n".join(json.dumps(r, separators=(",", ":")) for r in [{"op": "wire", "to": a, "from": b}, {"op": "init"}] + reqs) + "\n"
            try:
                r = vt.sh(["node", self.js], input=data.encode(), timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError("the library under node: no answer within %d s" % timeout)
        finally:
            srv.kill()
            srv.wait()
            os.unlink(a)
            os.unlink(b)
        outs = [json.loads(x) for x in r.stdout.decode().splitlines() if x.strip()]
        if r.returncode == 2 and len(outs) == 0:
            raise ToolError("the library under node: " + r.stderr.decode()[-2000:])
        if len(outs) != len(reqs) + 2:
            if r.returncode == 2:
                raise ToolError("the library under node: " + r.stderr.decode()[-2000:])
            dead = dict(reqs[len(outs) - 2]) if len(outs) >= 2 else {"op": "init"}
            dead["panic"] = "process ended (%d) %s" % (r.returncode, r.stderr.decode(errors="replace")[-300:])
            outs.append(dead)
        if "panic" in outs[1]:
            return [[outs[1]]]
        return outs[2:]

    def run(self, programs, timeout=400, par=8):
        """each program from a fresh state"""
        from concurrent.futures import ThreadPoolExecutor
        par = min(par, len(programs))
        parts = [programs[i::par] for i in range(par)]

        def work(i):
            reqs = []
            for p in parts[i]:
                reqs += [{"op": "reset"}] + p
            outs, res, k = self.one(reqs, "%d-%d" % (i, threading.get_ident()), timeout), [], 0
            for p in parts[i]:
                res.append(outs[k + 1:k + 1 + len(p)])
                k += 1 + len(p)
            return res
        with ThreadPoolExecutor(par) as ex:
            done = list(ex.map(work, range(par)))
        out = [None] * len(programs)
        for i, part in enumerate(done):
            for k, r in enumerate(part):
                out[i + k * par] = r
        return [x for x in out if x]


# ------------------------------------------------------------------ operands
MS = [0, 1, 2, Q - 1, Q, Q + 1, (1 << 256) - 1, 1 << 255, 1 << 248, (1 << 248) - 1, P, 255, 256, 65535]


def hexbytes(n, k=32):
    return n.to_bytes(k, "big").hex()


def sig_of(rng, d=None, k=None, m=None):
    """a key, a signature of it and what is signed"""
    while True:
        d1 = d if d is not None else rng.choice([1, 2, 3, Q - 1, Q - 2, rng.randrange(1, Q), rng.randrange(1, Q), rng.getrandbits(64) + 1])
        k1 = k if k is not None else rng.choice([1, 2, Q - 1, rng.randrange(1, Q), rng.randrange(1, Q), rng.randrange(1, Q), rng.getrandbits(120) + 1])
        m1 = m if m is not None else rng.choice([rng.randrange(1 << 256)] * 4 + [rng.randrange(1 << 248), rng.randrange(1 << 64)] + MS)
        R = mul(k1, G)
        r = R[0] % Q
        s = pow(k1, -1, Q) * (m1 + r * d1) % Q
        v = 27 + (R[1] & 1)
        if r and s and R[0] < Q:
            if s > Q // 2 and rng.random() < .5:
                s, v = Q - s, 55 - v
            return {"d": d1, "m": m1, "r": r, "s": s, "v": v, "R": R}
        k = None


def xs_small(n):
    out, x = [], 1
    while len(out) < n:
        if lift(x):
            out.append(x)
        x += 1
    return out


def values(rng, r, v, m):
    """T and U of r, v, m"""
    R = lift(r)
    if R is None or r % Q == 0:
        return None
    if R[1] & 1 != (v - 27) % 2:
        R = neg(R)
    ri = pow(r, -1, Q)
    return mul(ri, R), mul(-ri * m % Q, G)


def pub(r, v, mh, root, T, U):
    return {"r": hx(r), "v": hx(v), "m": mh, "root": hx(root), "Tx": hx(T[0]), "Ty": hx(T[1]), "Ux": hx(U[0]), "Uy": hx(U[1])}


def c24(c):
    rng = c.rng
    c.model("MC_Lib", "keys, nonces and messages, curve of order 31", constants={"BIG": False, "P": 43, "Q": 31, "B7": 7, "G": [7, 7], "W": 2, "Base": 3, "Lim": c.n(8, 62), "ValMax": -1},
            subst={"Enc": "DigTo", "Dec": "NumTo", "Cat": "SCat", "Part": "SPart", "Size": "SLen"}, invariants=("GivesKey", "AcceptsOwn", "AcceptsOnly"), deadlock=False)
    if c.thorough:
        c.model("MC_Lib", "keys, nonces and messages, curve of order 67", constants={"BIG": False, "P": 79, "Q": 67, "B7": 7, "G": [1, 18], "W": 2, "Base": 3, "Lim": 10, "ValMax": -1},
                subst={"Enc": "DigTo", "Dec": "NumTo", "Cat": "SCat", "Part": "SPart", "Size": "SLen"}, invariants=("GivesKey", "AcceptsOwn", "AcceptsOnly"), deadlock=False)
    L = Lib()
    try:
        progs = []
        small = xs_small(12)
        for i in range(c.n(60, 900)):
            p = []
            g = sig_of(rng, m=MS[i] if i < len(MS) else None)
            base = (g["r"], g["v"], g["m"])
            p.append({"op": "pub", "r": hx(g["r"]), "v": hx(g["v"]), "m": hexbytes(g["m"]), "d": hx(g["d"]), "s": hx(g["s"])})
            kind = rng.random()
            if kind < .35:                     # a point of small or large abscissa, of which nobody knows the nonce
                base = (rng.choice(small + [x for x in range(Q - 40, Q) if lift(x)] + [1 << 8, 1 << 128, 1 << 248]), rng.choice([27, 28]), rng.choice(MS + [rng.randrange(1 << 256)]))
            elif kind < .45:                   # no point at all
                base = (rng.choice([5, 7, 10, rng.randrange(1, Q)]), rng.choice([27, 28]), rng.randrange(1 << 256))
            r, v, m = base
            mh = hexbytes(m)
            if rng.random() < .15:             # message hashes that are not 32 bytes
                mh = rng.choice([mh[2:], "00" + mh, hexbytes(m % (1 << 160), 20), mh + "0011", "%02x" % (m % 256)])
                m = int(mh, 16)
            p.append({"op": "pub", "r": hx(r), "v": hx(v), "m": mh})
            TU = values(rng, r, v, m)
            if TU is None or TU[1] == O:
                X, Y = mul(rng.randrange(1, Q), G), mul(rng.randrange(1, Q), G)
                p.append(dict(pub(r, v, mh, 7, X, Y), op="check"))
                progs.append(p)
                continue
            T, U = TU
            ok = pub(r, v, mh, rng.choice([0, 1, P - 1, rng.randrange(P)]), T, U)
            p.append(dict(ok, op="check"))
            # every single change
            for key, val in (("Tx", T[0]), ("Ty", T[1]), ("Ux", U[0]), ("Uy", U[1])):
                for w in {(val + 1) % P, (val - 1) % P, P - val, val + P, 0, val ^ 1, val ^ (1 << 255), val ^ (1 << rng.randrange(256)), rng.choice([T[0], T[1], U[0], U[1], r, m])}:
                    p.append(dict(ok, op="check", **{key: hx(w)}))
            p.append(dict(ok, op="check", **{"Tx": hx(U[0]), "Ty": hx(U[1]), "Ux": hx(T[0]), "Uy": hx(T[1])}))
            p.append(dict(ok, op="check", Ty=hx(P - T[1])))
            p.append(dict(ok, op="check", Uy=hx(P - U[1])))
            p.append(dict(ok, op="check", Ty=hx(P - T[1]), v=hx(55 - v)))
            p.append(dict(ok, op="check", Ty=hx(P - T[1]), Uy=hx(P - U[1])))
            p.append(dict(ok, op="check", v=hx(55 - v)))
            p.append(dict(ok, op="check", Tx=hx(U[0]), Ty=hx(U[1])))
            p.append(dict(ok, op="check", Ux=hx(T[0]), Uy=hx(T[1])))
            for mm in {m ^ 1, m ^ (1 << 255), m ^ (1 << rng.randrange(256)), (m + Q) % (1 << 256), (m - Q) % (1 << 256), m >> 8, 0, Q, -m % Q}:
                p.append(dict(ok, op="check", m=hexbytes(mm)) if mm < 1 << 256 else dict(ok, op="check", m=hexbytes(mm, 40)))
            p.append(dict(ok, op="check", m=hexbytes(m + Q, 33) if m + Q < 1 << 264 else mh))
            for rr in {r + 1, r - 1, Q - r, rng.choice(small), r ^ (1 << rng.randrange(255)), g["r"]}:
                p.append(dict(ok, op="check", r=hx(rr % Q)))
            # the values of another signature by the same key
            h = sig_of(rng, d=g["d"])
            TU2 = values(rng, h["r"], h["v"], h["m"])
            if TU2[1] != O:
                p.append(dict(ok, op="check", Tx=hx(TU2[0][0]), Ty=hx(TU2[0][1])))
                p.append(dict(ok, op="check", Ux=hx(TU2[1][0]), Uy=hx(TU2[1][1])))
                p.append(dict(ok, op="check", Tx=hx(TU2[0][0]), Ty=hx(TU2[0][1]), Ux=hx(TU2[1][0]), Uy=hx(TU2[1][1])))
            progs.append(p)
        outs = L.run(progs)
    finally:
        L.close()
    c.add("checks_of_public_values", sum(len(p) for p in outs))
    c.add("accepted", sum(1 for p in outs for e in p if e["op"] == "check" and e.get("out") is True))
    c.sample({k: v for k, v in outs[-1][0].items()})
    c.trace("TraceLib", outs, "public values of signatures", constants=CONST, subst=SUBST)

    def corrupt(ps):
        e = next(e for p in ps for e in p if e["op"] == "check" and e.get("out") is False)
        e["out"] = True
    c.nonvacuous("TraceLib", outs[:20], corrupt, "public values", constants=CONST, subst=SUBST)


VALS = [0, 1, 15, 16, 255, 256, 4095, 1 << 64, (1 << 64) - 1, 1 << 247, 1 << 248, (1 << 248) - 1, 1 << 251, 1 << 252, (1 << 255), (1 << 256) - 1, P, P - 1, Q, int("00ff" * 16, 16), int("0a" * 32, 16), int("a0" * 31, 16)]


def c25(c):
    rng = c.rng
    c.model("MC_Lib", "every public input over two digits", constants={"BIG": False, "P": 43, "Q": 31, "B7": 7, "G": [7, 7], "W": 2, "Base": c.n(3, 4), "Lim": -1, "ValMax": c.n(8, 15)},
            subst={"Enc": "DigTo", "Dec": "NumTo", "Cat": "SCat", "Part": "SPart", "Size": "SLen"}, invariants=("RoundTrip",), deadlock=False)

    def val(k=256):
        x = rng.random()
        if x < .5:
            return rng.choice(VALS) % (1 << k)
        return rng.getrandbits(rng.randrange(1, k + 1))
    L = Lib()
    try:
        progs = []
        for i in range(c.n(60, 1200)):
            p = []
            for _ in range(12):
                mlen = rng.choice([32] * 5 + [0, 1, 20, 31, 33, 64])
                m = bytes(rng.choice([0, 0, 1, 255, rng.randrange(256)]) for _ in range(mlen)).hex()
                p.append({"op": "ser", "r": hx(val()), "v": hx(rng.choice([0, 1, 27, 28, 15, 16, 255, rng.randrange(256)])), "m": m, "root": hx(val()), "Tx": hx(val()), "Ty": hx(val()), "Ux": hx(val()), "Uy": hx(val())})
                h = bytearray(rng.choice([0, 0, 1, 16, 255, rng.randrange(256)]) for _ in range(193 + mlen))
                for k in range(6):             # fields with leading zeros
                    if rng.random() < .4:
                        at = (0 if k == 0 else 33 + 32 * (k - 1))
                        z = rng.randrange(33)
                        h[at:at + z] = bytes(z)
                p.append({"op": "deser", "h": bytes(h).hex()})
                size = rng.choice([1, 2, 3, 8, 20, 31, 32, 32, 32, 33, 64])
                p.append({"op": "toBytes", "n": hx(val(8 * size)), "size": size, "le": rng.random() < .5})
                p.append({"op": "toInt", "h": bytes(rng.choice([0, 1, 16, 255, rng.randrange(256)]) for _ in range(size)).hex(), "le": rng.random() < .5, "buffer": rng.random() < .3})
                r, s, v = val() or 1, val(255) or 1, rng.choice([27, 28, 0, 1])
                if rng.random() < .8:
                    p.append({"op": "sig", "sig": "0x" + hexbytes(r) + hexbytes(s) + "%02x" % v, "wr": hx(r), "ws": hx(s), "wv": hx(v if v >= 27 else v + 27)})
                else:
                    p.append({"op": "sig", "sig": "0x" + hexbytes(r) + hexbytes(s | (v & 1 ^ 1) << 255), "wr": hx(r), "ws": hx(s), "wv": hx(27 + (v & 1 ^ 1))})
            progs.append(p)
        outs = L.run(progs)
    finally:
        L.close()
    c.add("conversions", sum(len(p) for p in outs))
    c.sample(outs[0][0])
    c.trace("TraceLib", outs, "serialised forms and conversions", constants=CONST, subst=SUBST)

    def corrupt(ps):
        e = next(e for p in ps for e in p if e["op"] == "deser" and int(e["out"]["Tx"], 16) != int(e["out"]["Ty"], 16))
        e["out"]["Tx"], e["out"]["Ty"] = e["out"]["Ty"], e["out"]["Tx"]
    c.nonvacuous("TraceLib", outs[:10], corrupt, "serialised forms", constants=CONST, subst=SUBST)


def tree_program(rng, depth, n):
    p = [{"op": "tree", "t": "t", "depth": depth}]
    lv, pool = [], [0, 1, 2, P - 1, rng.randrange(P), rng.randrange(P), rng.randrange(P), 1 << 248, rng.getrandbits(160)]
    full = 1 << min(depth, 20)
    two = rng.random() < .3
    if two:                                    # another tree between
        p.append({"op": "tree", "t": "u", "depth": rng.choice([1, 2, 3])})
    asked = []                                 # what is asked again after every few changes
    for _ in range(n):
        k = rng.random()
        if asked and p[-1]["op"] in ("insert", "delete") and rng.random() < .6:
            p.append(dict(rng.choice(asked)))
            continue
        if k < .38 or not lv:
            x = rng.choice(pool)
            p.append({"op": "insert", "t": "t", "leaf": hx(x)})
            if len(lv) < full:
                lv.append(x)
        elif k < .52:
            i = rng.randrange(len(lv)) if rng.random() < .9 else len(lv) + rng.randrange(3)
            p.append({"op": "delete", "t": "t", "i": i})
            if i < len(lv):
                lv[i] = 0
        elif k < .55:
            p.append({"op": "root", "t": "t"})
        elif k < .6:
            p.append({"op": "leaves", "t": "t"})
        elif k < .7:
            p.append({"op": "indexOf", "t": "t", "leaf": hx(rng.choice(lv + pool))})
            asked.append(p[-1])
        elif two and k < .75:
            p.append({"op": "insert", "t": "u", "leaf": hx(rng.choice(pool))})
            p.append({"op": "root", "t": "u"})
        else:
            i = rng.randrange(len(lv)) if rng.random() < .93 else len(lv) + rng.randrange(2)
            p.append({"op": "proof", "t": "t", "i": i})
            asked += [p[-1], p[-1], {"op": "root", "t": "t"}]
    p.append({"op": "root", "t": "t"})
    return p


def alter_proofs(rng, depth, pr, leaf, others, leaves):
    """proofs near pr, for checkProof"""
    out = [(pr, leaf)]
    cp = lambda: json.loads(json.dumps(pr))
    for _ in range(3):
        q = cp()
        i = rng.randrange(len(q["path"]))
        q["path"][i] ^= 1
        out.append((q, leaf))
        q = cp()
        i = rng.randrange(len(q["siblings"]))
        q["siblings"][i][0] = hx((int(q["siblings"][i][0], 16) + rng.choice([1, P - 1])) % P)
        out.append((q, leaf))
    q = cp()
    q["root"] = hx((int(q["root"], 16) + 1) % P)
    out.append((q, leaf))
    out.append((pr, hx((int(leaf, 16) + 1) % P)))
    out.append((pr, rng.choice(leaves)))
    if len(pr["path"]) > 1:
        q = cp()                               # a shorter path: an inner node in place of a leaf
        q["path"], q["siblings"] = q["path"][1:], q["siblings"][1:]
        out.append((q, leaf))
        q = cp()
        q["path"], q["siblings"] = q["path"][:-1], q["siblings"][:-1]
        out.append((q, leaf))
        q = cp()
        i, j = 0, len(q["siblings"]) - 1
        q["siblings"][i], q["siblings"][j] = q["siblings"][j], q["siblings"][i]
        out.append((q, leaf))
        q = cp()
        q["path"].reverse()
        out.append((q, leaf))
        q = cp()
        q["siblings"].reverse()
        out.append((q, leaf))
        q = cp()
        q["path"], q["siblings"] = [], []
        out.append((q, q["root"]))
        out.append((q, leaf))
    # more levels than the tree has, above and below
    for sib in ("0", hx(rng.randrange(P)), pr["root"], leaf):
        q = cp()
        q["path"], q["siblings"] = q["path"] + [rng.randrange(2)], q["siblings"] + [[sib]]
        out.append((q, leaf))
    q = cp()
    q["path"], q["siblings"] = [rng.randrange(2)] + q["path"], [[hx(rng.randrange(P))]] + q["siblings"]
    out.append((q, leaf))
    for o in others:
        out.append((o, leaf))
    return out


def c26(c):
    rng = c.rng
    free = {"MH": "Free", "MZero": "Nil"}
    inv = ("RootRight", "NodesRight", "OwnProofs", "OnlyMembers")
    c.model("MC_Merkle", "histories of a tree of depth 2", constants={"Depth": 2, "Leaves": 2, "MaxOps": c.n(4, 6)}, subst=free, invariants=inv, deadlock=False)
    c.model("MC_Merkle", "histories of a tree of depth 1", constants={"Depth": 1, "Leaves": 3, "MaxOps": 6}, subst=free, invariants=inv, deadlock=False)
    c.model("MC_Merkle", "histories of a tree of depth 3", constants={"Depth": 3, "Leaves": 1, "MaxOps": c.n(5, 9)}, subst=free, invariants=inv[:3], deadlock=False)
    L = Lib()
    try:
        depths = [1, 2, 3, 3, 4, 5, 8, 20]
        first = [tree_program(rng, depths[i % len(depths)], rng.choice([10, 25]) if depths[i % len(depths)] < 9 else 12) for i in range(c.n(24, 240))]
        if c.thorough:
            first += [tree_program(rng, 32, 8), tree_program(rng, 31, 8), tree_program(rng, 30, 8)]
        outs = L.run(first)
        # the same histories, with proofs - the tree's own, altered, of before - to check
        second = []
        for prog, res in zip(first, outs):
            lv, t, got = [], None, []
            q = []
            for e in res:
                q.append({k: v for k, v in e.items() if k not in ("out", "panic", "calls", "intact")})
                if e["op"] == "tree" and e["t"] == "t":
                    t = e["depth"]
                if e.get("t") == "t" and e["op"] == "insert" and "panic" not in e:
                    lv.append(e["leaf"])
                if e.get("t") == "t" and e["op"] == "delete" and "panic" not in e and e["i"] < len(lv):
                    lv[e["i"]] = "0"
                if e["op"] == "proof" and "out" in e and e["i"] < len(lv):
                    got.append((e["out"], lv[e["i"]]))
            cand = []
            for pr, leaf in rng.sample(got, min(len(got), c.n(2, 4))):
                al = alter_proofs(rng, t, pr, leaf, [x for x, _ in rng.sample(got, min(2, len(got)))], lv)
                cand += [al[0]] + rng.sample(al[1:], min(len(al) - 1, c.n(6, 12) if t < 9 else 4))
            for pr, leaf in cand:
                q.append({"op": "checkProof", "t": "t", "proof": pr, "leaf": leaf})
            second.append(q)
        outs = L.run(second)
        hp = []
        for i in range(c.n(12, 60)):
            p = []
            for _ in range(5):
                a, b = rng.choice([0, 1, P - 1, 255, 1 << 248, rng.randrange(P)]), rng.choice([0, 1, P - 1, 16, rng.getrandbits(200), rng.randrange(P)])
                p.append({"op": "hash", "in": [hx(a), hx(b)]})
                X = mul(rng.choice([1, 2, 3, rng.randrange(1, Q)]), G)
                a, b = rng.choice([X, (a, b)])
                p.append({"op": "hashpk", "h": hexbytes(a) + hexbytes(b)})
            # pairs that are easily taken for one another, hashed by one object
            d = str(rng.randrange(10 ** 5, 10 ** 9)) if i % 3 else "%x" % rng.getrandbits(rng.choice([20, 256, 256]))
            base = 10 if i % 3 else 16
            cuts = [(int(d[:k], base) % P, int(d[k:], base) % P) for k in rng.sample(range(1, len(d)), 2)]
            a, b = cuts[0]
            for x, y in cuts + [rng.choice([(b, a), (a, a), (a, 0), (0, a), ((a + (1 << 32)) % P, b), (a, P - b if b else 1), (a, (b + (1 << 64)) % P)]), cuts[0]]:
                p.append({"op": "hash", "in": [hx(x), hx(y)]})
            hp.append(p)
        hps = L.run(hp)
    finally:
        L.close()
    for ps in (outs, hps):
        for p in ps:
            for e in p:
                e.pop("calls", None)
    c.add("proof_checks", sum(1 for p in outs for e in p if e["op"] == "checkProof"))
    c.add("proofs_accepted", sum(1 for p in outs for e in p if e["op"] == "checkProof" and e.get("out") is True))
    c.sample(outs[0][:6])
    c.trace("TraceLib", outs, "histories of trees", constants=CONST, subst=SUBST)
    c.trace("TraceLib", hps, "hashes of pairs and keys", constants=CONST, subst=SUBST)

    def corrupt(ps):
        e = next(e for p in ps for e in p if e["op"] == "root" and "out" in e)
        e["out"] = hx(int(e["out"], 16) ^ 1)
    c.nonvacuous("TraceLib", outs[:3], corrupt, "histories of trees", constants=CONST, subst=SUBST)


def at_once(rng, who, files):
    """several provers and verifiers at work at once, some of them the same object; a symbolic proof system"""
    blob = lambda: bytes(rng.randrange(256) for _ in range(rng.choice([1, 5, 60]))).hex()
    few = rng.sample(list(who), min(len(who), rng.choice([1, 1, 2, 4])))
    of, good = [], []
    for _ in range(rng.randrange(2, 7)):
        a = rng.choice(few)
        w = who[a]
        rem = w.get("remote") is True or w.get("window")
        circ = w["circuit"].encode().hex() if rem else files.get(w["circuit"], "none")
        g = sig_of(rng, m=rng.randrange(1, Q))
        r, s, v, m = g["r"], g["s"], g["v"], g["m"]
        root = rng.randrange(P)
        if w["op"] == "prover":
            depth = rng.choice([1, 2, 5])
            mp = {"root": hx(root), "path": [rng.randrange(2) for _ in range(depth)], "siblings": [[hx(rng.choice([0, 1, rng.randrange(P)]))] for _ in range(depth)]}
            of.append({"kind": "prove", "a": a, "sig": "0x" + hexbytes(r) + hexbytes(s) + "%02x" % v, "m": hexbytes(m), "r": hx(r), "s": hx(s), "v": hx(v), "proof": mp, "file": circ})
            continue
        if of and rng.random() < .15 and of[-1]["kind"] == "verify":         # asked twice
            of.append({**of[-1]})
            continue
        T, U = values(rng, r, v, m)
        bad = rng.random()
        if bad < .2:
            T = U
        head = "".join(hexbytes(x) for x in (root,) + T + U)
        x = {"kind": "verify", "a": a, "p": blob(), "h": hexbytes(r) + "%02x" % v + head + hexbytes(m), "file": circ}
        of.append(x)
        if not .2 <= bad < .5:
            good.append({"circuit": circ, "proof": x["p"], "public": head})
        else:                                                # a proof of something else
            good.append({"circuit": circ, "proof": x["p"], "public": hexbytes(root ^ 1) + head[64:]})
    return {"op": "both", "of": of, "calls": False,
            "answer": {"fetch": {"echo": True}, "witness": {"echo": True}, "prove": {"echo": True}, "verify": {"good": good}, "lag": [rng.choice([0, 0, 1, 2, 5]) for _ in range(7)]}}


def c27(c):
    rng = c.rng
    c.model("MC_Member", "signatures, proofs and verdicts in any order",
            constants={"Keys": {"alice", "bob"}, "Outsiders": {"eve"}, "Msgs": {"m1", "m2"}, "Nonces": {"r1", "r2"}, "Roots": {"A", "AB"}, "Circuits": {"c1", "c2"}, "MaxEv": c.n(3, 4)},
            subst={"Under": "KeysUnder"}, invariants=("OnlyMembers", "Accepted"), deadlock=False)
    L = Lib()
    try:
        files = {}
        for f in ("membership.circuit", "one/membership.circuit", "two/membership.circuit", "two/other"):      # names alike
            data = bytes(rng.randrange(256) for _ in range(rng.choice([1, 40, 300])))
            files[L.path(f, data)] = data.hex()
        missing = os.path.join(L.dir, "missing")
        urls = ["https://example.org/a.circuit", "https://example.net/a.circuit", next(iter(files)), "https://storage.googleapis.com/personae-proving-keys/membership/pubkey_membership.circuit",
                "https://storage.googleapis.com/personae-proving-keys/membership/addr_membership.circuit"]
        blob = lambda: bytes(rng.randrange(256) for _ in range(rng.choice([1, 5, 60, 200]))).hex()
        progs = []
        for i in range(c.n(70, 900)):
            p, who = [], {}
            for a in range(rng.randrange(1, 5)):
                kind = rng.choice(["prover", "verifier"]) if a else ["prover", "verifier"][i % 2]
                remote = rng.choice([True, False, False, None])
                win = kind == "verifier" and rng.random() < .15
                circ = rng.choice(urls) if remote or win or rng.random() < .1 else rng.choice(list(files) * 3 + [missing])
                q = {"op": kind, "a": "a%d" % a, "circuit": circ}
                if remote is not None:
                    q["remote"] = remote
                if rng.random() < .3:
                    q["profile"] = rng.random() < .5
                if kind == "prover":
                    q["gen"] = rng.choice(["/x/pubkey.wasm", "gen.wasm", "https://example.org/g.wasm"])
                elif win:
                    q["window"] = True
                p.append(q)
                who["a%d" % a] = q
            for _ in range(rng.choice([3, 6, 10])):
                a = rng.choice(list(who))
                w = who[a]
                g = sig_of(rng)
                bad = rng.random()
                ans = {"fetch": {"bytes": blob()}, "verify": {"value": rng.random() < .6}, "prove": {"bytes": blob()}, "witness": {"bytes": blob()}}
                if rng.random() < .1:
                    ans["fetch"] = {"throw": "x"}
                depth = rng.choice([1, 2, 20])
                mp = {"root": hx(rng.choice([0, 1, P - 1, rng.randrange(P), rng.getrandbits(240)])), "path": [rng.randrange(2) for _ in range(depth)], "siblings": [[hx(rng.choice([0, 1, rng.randrange(P)]))] for _ in range(depth)]}
                if w["op"] == "prover":
                    for k in ("witness", "prove"):
                        if rng.random() < .12:
                            ans[k] = {"throw": rng.choice(["js", "trap"])}
                    r, s, v, m = g["r"], g["s"], g["v"], g["m"]
                    if bad < .1:
                        r = rng.choice([5, 7, rng.randrange(1, Q)])
                    q = {"op": "prove", "a": a, "sig": "0x" + hexbytes(r) + hexbytes(s) + "%02x" % rng.choice([v, v, v - 27]), "m": hexbytes(m), "r": hx(r), "s": hx(s), "v": hx(v), "proof": mp, "answer": ans,
                         "file": files.get(w["circuit"], "none")}
                    if rng.random() < .12:
                        q["window"] = True
                    p.append(q)
                    continue
                if rng.random() < .2:
                    ans["verify"] = {"throw": rng.choice(["js", "trap"])}
                r, v, m = g["r"], g["v"], g["m"]
                T, U = values(rng, r, v, m)
                if U == O:
                    T = U = mul(5, G)
                f = [r, v, int(mp["root"], 16), T[0], T[1], U[0], U[1]]
                mh = hexbytes(m)
                if bad < .45:                  # one value off
                    j = rng.randrange(8)
                    if j == 7:
                        mh = hexbytes(m ^ (1 << rng.randrange(256)))
                    elif j == 1:
                        f[1] = 55 - v
                    else:
                        f[j] = rng.choice([f[j] ^ (1 << rng.randrange(255)), 0, rng.randrange(P), f[rng.randrange(7)]])
                if f[0] >= Q or f[0] == 0:     # r outside its range says nothing
                    f[0] = r
                h = hexbytes(f[0]) + "%02x" % (f[1] % 256) + "".join(hexbytes(x) for x in f[2:]) + mh
                if int(h[64:66], 16) not in (27, 28):
                    h = h[:64] + "1b" + h[66:]
                if bad > .97:
                    h = h[:rng.choice([0, 2, 64, 66, 100, 384])]
                p.append({"op": "verify", "a": a, "p": blob() if rng.random() < .9 else "", "h": h, "answer": ans, "file": files.get(w["circuit"], "none")})
            if rng.random() < .6:
                p.append(at_once(rng, who, files))
            progs.append(p)
        outs = L.run(progs)
    finally:
        L.close()
    verdicts = [e for p in outs for e in p if e["op"] == "verify"]
    c.add("verdicts", len(verdicts))
    c.add("verdicts_true", sum(1 for e in verdicts if e.get("out") is True))
    c.add("proofs_made", sum(1 for p in outs for e in p if e["op"] == "prove" and "out" in e))
    both = [(x["kind"], o) for p in outs for e in p if e["op"] == "both" for x, o in zip(e["of"], e["outs"])]
    c.add("at_once", len(both))
    c.add("at_once_true", sum(1 for k, o in both if k == "verify" and o.get("out") is True))
    c.add("at_once_proofs", sum(1 for k, o in both if k == "prove" and "out" in o))
    c.sample(verdicts[0])
    c.trace("TraceLib", outs, "provers and verifiers", constants=CONST, subst=SUBST)

    def corrupt(ps):
        e = next(e for p in ps for e in p if e["op"] == "verify" and e.get("out") is False)
        e["out"] = True
    c.nonvacuous("TraceLib", outs[:30], corrupt, "verdicts", constants=CONST, subst=SUBST)

    def corrupt2(ps):
        e = next(e for p in ps for e in p if e["op"] == "prove" and "out" in e)
        k = next(k for k in e["calls"] if k["fn"] == "prove")
        k["public"] = k["public"][64:128] + k["public"][:64] + k["public"][128:]
    c.nonvacuous("TraceLib", outs[:30], corrupt2, "provers", constants=CONST, subst=SUBST)
