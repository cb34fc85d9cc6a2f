"""C28: the whole system - tree, prover, circuit, proof system, verifier - against spec/TraceE2E.tla."""
import os, subprocess, sys
import circuits, circom, e2e, vt
from circom import CircomError
from vt import hx, ToolError
from p_circ import add, mul, neg, lift, specials, make, keccak, G, O, P, Q
from p_lib import Lib, CONST, SUBST, MS, hexbytes, sig_of, values

PY = sys.executable
PUBLIC = ["root", "Tx", "Ty", "Ux", "Uy"]
E2E = dict(constants=CONST, subst=SUBST, spec="ESpec")


class System:
    def __init__(self, L):
        self.L, self.n, self.known = L, 0, []

    def circuit(self, kind, depth, main=None):
        """the files of one circuit, and the event that says what they are"""
        self.n += 1
        t = {"pk": "PubKeyMembership", "addr": "AddrMembership"}[kind]
        base = os.path.join(self.L.dir, "%s%d-%d" % (kind, depth, self.n), "membership")     # one name for all of them
        os.makedirs(os.path.dirname(base))
        ev = {"op": "circuit", "path": base + ".circuit", "kind": kind, "depth": depth, "ok": True}
        try:
            R = make(t, (depth,), main) if main else make(t, (depth,))
            if not main:
                R.public = list(PUBLIC)
            data, npub = e2e.r1cs(R)
        except CircomError as e:
            ev.update(ok=False, why=str(e))
            return ev, None
        with open(base + ".r1cs", "wb") as f:
            f.write(data)
        e2e.save(R, base + ".gen")
        r = vt.sh([self.L.native, "circuit", base + ".r1cs", base + ".circuit", str(npub)], timeout=600)
        os.unlink(base + ".r1cs")
        if r.returncode:
            ev.update(ok=False, why="the file reader stops")
        self.known += [ev, dict(ev, path=base + ".gen")]
        return ev, base


def gen(mode):
    return {"witness": {"generate": [PY, "-B", os.path.join(vt.VERIF, "bin/e2e.py"), mode]}}


def c28(c):
    rng = c.rng
    c.model("MC_Member", "signatures, proofs, forgeries and verdicts in any order",
            constants={"Keys": {"alice", "bob"}, "Outsiders": {"eve"}, "Msgs": {"m1", "m2"}, "Nonces": {"r1", "r2"}, "Roots": {"A", "AB"}, "Circuits": {"c1", "c2"}, "MaxEv": c.n(3, 4)},
            subst={"Under": "KeysUnder"}, invariants=("OnlyMembers", "Accepted"), deadlock=False)
    L = Lib()
    try:
        S = System(L)
        bases, bad = {}, []
        want = [("pk", 20, "instances/pubkey_membership.circom"), ("pk", 3, None), ("pk", 2, None)]
        if c.thorough:
            want += [("addr", 20, "instances/addr_membership.circom"), ("addr", 3, None)]
        for kind, depth, main in want:
            ev, base = S.circuit(kind, depth, main)
            bases[kind, depth] = base
            if not ev["ok"]:
                bad.append(ev)
        if bad:
            c.trace("TraceE2E", [[ev] for ev in bad], "circuits", **E2E)
            return
        progs = world(c, rng, L, S, bases)
    finally:
        L.close()
    for p in progs:
        for e in p:
            e.pop("calls", None)
    js = [e for p in progs for e in p if e["op"] == "judge"]
    c.add("verdicts", len(js))
    c.add("verdicts_true", sum(1 for e in js if e.get("out") is True))
    c.add("proofs_made", sum(1 for p in progs for e in p if e["op"] in ("provefor", "rawprove") and "panic" not in e))
    c.add("proofs_refused", sum(1 for p in progs for e in p if e["op"] in ("provefor", "rawprove") and "panic" in e))
    c.sample(next((e for e in js if e.get("out") is True), js[0]))
    c.trace("TraceE2E", progs, "the whole system", **E2E)

    def corrupt(ps):
        e = next(e for p in ps for e in p if e["op"] == "judge" and e.get("out") is False)
        e["out"] = True
    c.nonvacuous("TraceE2E", progs[:2], corrupt, "verdicts of the whole system", **E2E)


def world(c, rng, L, S, bases):
    n = c.n(8, 40)
    # ---- the members
    setups, first = [], []
    for i in range(n):
        kind, depth = [("pk", 20), ("pk", 3), ("pk", 20), ("pk", 2)][i % 4]
        if c.thorough and i % 8 == 7:
            kind, depth = [("addr", 20), ("addr", 3)][i // 8 % 2]
        ds = [rng.choice([1, 2, 3, Q - 1, rng.randrange(1, Q)])] + [rng.randrange(1, Q) for _ in range(2)]
        setups.append(dict(kind=kind, depth=depth, ds=ds, out=rng.randrange(1, Q)))
        p = [{"op": "hashpk", "h": hexbytes(X[0]) + hexbytes(X[1])} for X in (mul(d, G) for d in ds)]
        first.append(p)
    outs = L.run(first)
    second = []
    for s, o in zip(setups, outs):
        if any("out" not in e for e in o):
            return outs
        if s["kind"] == "pk":
            s["leaves"] = [e["out"] for e in o]
        else:
            s["leaves"] = [hx(int(keccak(bytes.fromhex(hexbytes(X[0]) + hexbytes(X[1])))[-20:].hex(), 16)) for X in (mul(d, G) for d in s["ds"])]
        p = (o if s["kind"] == "pk" else []) + [{"op": "tree", "t": "t", "depth": s["depth"]}]
        k = rng.randrange(3)                          # how many are in before the first proof
        for x in s["leaves"][:k + 1]:
            p.append({"op": "insert", "t": "t", "leaf": x})
        p.append({"op": "proof", "t": "t", "i": k})
        for x in s["leaves"][k + 1:]:
            p.append({"op": "insert", "t": "t", "leaf": x})
        if rng.random() < .5:                         # someone in between is taken out
            p.append({"op": "insert", "t": "t", "leaf": hx(rng.randrange(P))})
            p.append({"op": "delete", "t": "t", "i": 3})
        p.append({"op": "proof", "t": "t", "i": 0})
        p.append({"op": "proof", "t": "t", "i": 2})
        s["who"] = [k, 0, 2]
        second.append([{a: b for a, b in e.items() if a in ("op", "t", "depth", "leaf", "i", "h")} for e in p])
    outs = L.run(second)
    # ---- the proofs
    third = []
    for i, (s, o) in enumerate(zip(setups, outs)):
        if any("panic" in e for e in o):
            return outs
        mps = [e["out"] for e in o if e["op"] == "proof"]
        base = bases[s["kind"], s["depth"]]
        other = rng.choice([b for k, b in bases.items() if b != base and (s["kind"], s["depth"])[0] == k[0]] or [base])
        p = [{"op": "prover", "a": "p", "circuit": base + ".circuit", "gen": base + ".gen"},
             {"op": "prover", "a": "x", "circuit": other + ".circuit", "gen": base + ".gen"}]
        made = []

        def prove(d, mp, mode="honest", a="p", m=None, off=None):
            g = sig_of(rng, d=d, m=m)
            while g["m"] % Q == 0:
                g = sig_of(rng, d=d, m=m)
            if off:
                off(g)
            f = os.path.join(L.dir, "proof-%d-%d" % (i, len(made)))
            made.append(f)
            v = g["v"] if rng.random() < .8 else g["v"] - 27
            p.append({"op": "provefor", "a": a, "sig": "0x" + hexbytes(g["r"]) + hexbytes(g["s"]) + "%02x" % v, "m": hexbytes(g["m"]), "r": hx(g["r"]), "s": hx(g["s"]), "v": hx(g["v"]),
                      "proof": mp, "honest": mode == "honest", "keep": f, "answer": gen(mode), "calls": False})
        k = rng.randrange(3)
        prove(s["ds"][s["who"][k]], mps[k])
        if i % 4 == 0:                                   # an old root and a new one
            prove(s["ds"][s["who"][0]], mps[0])
        outsider = rng.choice(["honest", "cheat"])
        prove(s["out"], mps[rng.randrange(3)], outsider)
        what = i % 6
        mode = rng.choice(["honest", "cheat"])
        if what == 0:                                    # the right key, another's place
            prove(s["ds"][0], mps[2], mode)
        elif what == 1:                                  # a signature that is off
            prove(s["ds"][0], mps[1], mode, off=rng.choice([lambda g: g.update(s=(g["s"] + 1) % Q or 1), lambda g: g.update(v=55 - g["v"]), lambda g: g.update(m=g["m"] ^ (1 << rng.randrange(250)))]))
        elif what == 2:                                  # another root
            q = dict(mps[1], root=hx((int(mps[1]["root"], 16) + rng.choice([1, P - 1])) % P))
            prove(s["ds"][0], q, mode)
        elif what == 3:                                  # a sibling or a side off
            q = dict(mps[1], path=list(mps[1]["path"]), siblings=[list(x) for x in mps[1]["siblings"]])
            j = rng.randrange(s["depth"])
            if rng.random() < .5:
                q["path"][j] = rng.choice([1 - q["path"][j], 2, 3])
            else:
                q["siblings"][j][0] = hx((int(q["siblings"][j][0], 16) + 1) % P)
            prove(s["ds"][0], q, mode)
        elif what == 4:                                  # the files of two circuits
            prove(s["ds"][0], mps[1], mode, a="x")
        else:                                            # the same one twice
            prove(s["ds"][0], mps[1], m=rng.choice([1, Q - 1, (1 << 256) - 1]))
        # T and U of one's own choice: any member's key, without a signature
        K = mul(s["ds"][0], G)
        s0 = rng.choice([1, 2, rng.randrange(1, Q)])
        T = rng.choice([G, K, mul(rng.randrange(1, Q), G)])
        U = add(K, neg(mul(s0, T)))
        if U == O:
            s0 += 1
            U = add(K, neg(mul(s0, T)))
        f = os.path.join(L.dir, "proof-%d-raw" % i)
        p.append({"op": "rawprove", "circuit": base + ".circuit", "gen": base + ".gen", "honest": True, "keep": f, "answer": gen("honest"),
                  "in": {"s": hx(s0), "root": mps[1]["root"], "Tx": hx(T[0]), "Ty": hx(T[1]), "Ux": hx(U[0]), "Uy": hx(U[1]),
                         "pathIndices": mps[1]["path"], "siblings": [x[0] for x in mps[1]["siblings"]]}})
        third.append(p)
    pouts = L.run(third)
    # ---- the verdicts
    fourth = []
    for i, (s, o) in enumerate(zip(setups, pouts)):
        base = bases[s["kind"], s["depth"]]
        p = [{"op": "verifier", "a": "v", "circuit": base + ".circuit"}]
        mine = [e for e in o if e["op"] == "provefor" and "out" in e]
        raw = [e for e in o if e["op"] == "rawprove" and "panic" not in e]
        ask = lambda pf, h, a="v", **k: p.append(dict({"op": "judge", "a": a, "pf": pf, "h": h, "calls": False}, **k))
        for e in mine:
            ask(e["keep"], e["out"]["h"])
        if mine:
            e = mine[0]
            h = e["out"]["h"]
            x = rng.choice([b for b in bases.values() if b != base])
            p.append({"op": "verifier", "a": "w", "circuit": x + ".circuit"})
            kinds = ["other circuit", "other input", "root", "message", "r", "T", "U", "parity", "flip", "short", "swap"]
            for k in rng.sample(kinds, c.n(6, 9)):
                w = lambda j, v: h[:66 + 64 * j] + v + h[66 + 64 * (j + 1):]
                g = sig_of(rng)
                while g["m"] % Q == 0:
                    g = sig_of(rng)
                T, U = values(rng, g["r"], g["v"], g["m"])
                if k == "other circuit": ask(e["keep"], h, "w")
                if k == "other input":                   # values that match, of another signature
                    ask(e["keep"], hexbytes(g["r"]) + "%02x" % g["v"] + h[66:130] + "".join(hexbytes(z) for z in T + U) + hexbytes(g["m"]))
                if k == "root": ask(e["keep"], w(0, hexbytes((int(h[66:130], 16) + rng.choice([1, P - 1])) % P)))
                if k == "message": ask(e["keep"], h[:-64] + hexbytes(int(h[-64:], 16) ^ (1 << rng.randrange(256))))
                if k == "r": ask(e["keep"], hexbytes(g["r"]) + h[64:])
                if k == "T": ask(e["keep"], h[:130] + hexbytes(T[0]) + hexbytes(T[1]) + h[258:])
                if k == "U":                             # the message and its U exchanged, the proof of before
                    U = values(rng, int(h[:64], 16), int(h[64:66], 16), g["m"])[1]
                    ask(e["keep"], h[:258] + hexbytes(U[0]) + hexbytes(U[1]) + hexbytes(g["m"]))
                if k == "parity":
                    v = 55 - int(h[64:66], 16)
                    T, U = values(rng, int(h[:64], 16), v, int(h[-64:], 16))
                    ask(e["keep"], h[:64] + "%02x" % v + h[66:130] + "".join(hexbytes(z) for z in T + U) + h[-64:])
                if k == "flip":
                    for _ in range(3):
                        ask(e["keep"], h, flip=rng.randrange(1 << 20))
                if k == "short": ask(e["keep"], h[:rng.choice([64, 386, len(h) - 2])])
                if k == "swap" and raw: ask(raw[0]["keep"], h)
            ask(e["keep"], h)                            # and still
        for e in raw:
            # the values it was made for, under any signature
            g = e["in"]
            h = mine[0]["out"]["h"] if mine else "00" * 31 + "01" + "1b" + "00" * 192
            five = "".join(g[k].zfill(64) for k in PUBLIC)
            ask(e["keep"], h[:66] + five + h[-64:])
            ask(e["keep"], h[:64] + ("1c" if h[64:66] == "1b" else "1b") + five + hexbytes(rng.choice([1, Q - 1, rng.randrange(1, 1 << 256)])))
        fourth.append(p)
    vouts = L.run(fourth)
    return [S.known + a + b + d for a, b, d in zip(outs, pouts, vouts)]
