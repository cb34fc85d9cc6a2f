"""C13..C16, C18 and the committed half of C12: the building blocks, the openings, the committed sum-check
and the proof of satisfaction.  Provers run first; their proofs, statements and altered ones then go to the
verifiers; everything recorded is decided by TraceProto."""
import json
import bc, vt
from vt import hx
from p_files import LE32, wtns_file
from p_point import N as NB, sqrt, rhs
from p_poly import P, Src, ints

CONST = {"P": hx(P), "BIG": True, "NB": hx(NB)}
LABELS = ("vt-a", "vt-b", "gens_r1cs_sat", "x")
SCH = {"know": bc.KNOW, "eq": bc.EQ, "prod": bc.PROD, "dot": bc.DOT, "log": bc.LOG, "open": bc.LOG, "zkq": bc.ZKSC, "zkc": bc.ZKSC, "zk": bc.ZKSC,
       "nizk": bc.NIZK, "wasm": bc.NIZK}
POINTS = {"know": ("C",), "eq": ("C1", "C2"), "prod": ("X", "Y", "Z"), "dot": ("Cx", "Cy"), "log": ("Cx", "Cy"), "open": ("czr",), "zk": ("cclaim",)}
dup = lambda v: json.loads(json.dumps(v))


def kind(e):
    return e["op"].split("_")[0]


def mle(z, r):
    z = ints(z)
    for x in ints(r):
        h = len(z) // 2
        z = [(z[i] + x * (z[i + h] - z[i])) % P for i in range(h)]
    return z[0]


def inner(a, b):
    return sum(x * y for x, y in zip(ints(a), ints(b))) % P


# ------------------------------------------------------------------ points
def some_points(rng, n):
    """encodings: of points, of nothing, and invalid ones that are at least 33 bytes long"""
    out = []
    while len(out) < n:
        x = rng.choice((rng.randrange(NB), rng.randrange(60), NB - rng.randrange(1, 60)))
        if sqrt(rhs(x)) is not None:
            out.append(rng.choice(("02", "03")) + "%064x" % x)
    return out


def other_point(rng, h, pool):
    k = rng.random()
    if k < .3 and h != "00":
        return ("03" if h[:2] == "02" else "02") + h[2:]           # the opposite point
    if k < .45:
        return "00"
    if k < .55:                                                      # no point
        x = rng.randrange(60)
        while sqrt(rhs(x)) is not None:
            x += 1
        return "02" + "%064x" % x
    if k < .6 and h != "00":
        x = int(h[2:], 16) + NB
        return h[:2] + "%064x" % x if x < 1 << 256 else rng.choice(pool)
    return rng.choice(pool)


def other_scalar(rng, s, x):
    x = int(x, 16)
    return rng.choice((hx((x + 1) % P), hx((x - 1) % P), "0", hx((P - x) % P), hx(2 * x % P), hx(pow(x, -1, P) if x else 1), s()))


def alterations(rng, s, schema, pf, pool, n=None):
    """altered copies of a proof: every leaf, every vector (or n of them at random)"""
    out = []
    pl = list(bc.places(schema, pf))
    if n is not None:
        pl = [rng.choice(pl) for _ in range(n)]
    for k, p in pl:
        v = dup(pf)
        if k == "S":
            bc.put(v, p, other_scalar(rng, s, bc.get(v, p)))
        elif k == "C":
            bc.put(v, p, other_point(rng, bc.get(v, p), pool))
        elif k == "v":
            t = bc.get(v, p) if p else v
            m = rng.random()
            if m < .3 and t:
                del t[rng.randrange(len(t))]
            elif m < .45 and len(t) > 1:
                i, j = rng.sample(range(len(t)), 2)
                t[i], t[j] = t[j], t[i]
            elif m < .8 and t:
                t.insert(rng.choice((len(t), len(t), rng.randrange(len(t) + 1))), dup(rng.choice(t)))
            elif t:
                z = dup(t[-1])
                t.append("00" if isinstance(z, str) and len(z) in (2, 66) and z[:2] in ("00", "02", "03") else "0" if isinstance(z, str) else z)
            else:
                continue
        out.append(v)
    for _ in range(1 if n is None else 0):                          # two leaves exchanged
        for t in "SC":
            c = [p for k, p in bc.places(schema, pf) if k == t]
            if len(c) > 1:
                v = dup(pf)
                i, j = rng.sample(c, 2)
                x, y = bc.get(v, i), bc.get(v, j)
                bc.put(v, i, y)
                bc.put(v, j, x)
                out.append(v)
    return out


# ------------------------------------------------------------------ first phase
def statements(rng, n, kinds):
    s = Src(rng)
    nz = lambda m: next(v for v in iter(lambda: s.vec(m), None) if any(ints(v)))
    out = []
    for i in range(n):
        k = kinds[i % len(kinds)]
        e = {"op": k + "_p", "seed": s(), "label": rng.choice(LABELS)}
        true = rng.random() < .85
        if k == "know":
            e.update(x=s(), r=s(), true=True)
        elif k == "eq":
            v = s()
            w = v if true else s()
            e.update(v1=v, s1=s(), v2=w, s2=s())
            if rng.random() < .1:
                e["s2"] = e["s1"]
            e["true"] = v == w
        elif k == "prod":
            x, y = s(), s()
            t = int(x, 16) * int(y, 16) % P
            z = hx(t) if true else s()
            e.update(x=x, rx=s(), y=y, ry=s(), z=z, rz=s(), true=int(z, 16) == t)
        elif k in ("dot", "log"):
            m = rng.choice((1, 2, 3, 4, 5)) if k == "dot" else rng.choice((1, 2, 4, 8, 2, 4))
            x, a = s.vec(m), nz(m)
            t = inner(x, a)
            y = hx(t) if true else s()
            e.update(x=x, rx=s(), a=a, y=y, ry=s(), true=int(y, 16) == t, n=m)
        elif k == "open":
            l = rng.choice((1, 2, 2, 3, 3, 4, 5))
            z, r = s.vec(1 << l), s.vec(l)
            t = mle(z, r)
            y = hx(t) if true else s()
            e.update(z=z, r=r, zr=y, br=rng.choice(("0", s())), blind=rng.random() < .6, true=int(y, 16) == t, n=1 << (l - l // 2))
        elif k == "zkq":
            l = rng.choice((1, 1, 2, 2, 3))
            A, B, f = s.vec(1 << l), s.vec(1 << l), rng.choice(("ab", "ab", "a(b+1)"))
            t = sum(x * (y + (f != "ab")) for x, y in zip(ints(A), ints(B))) % P
            e.update(A=A, B=B, f=f, claim=hx(t) if true else s(), bclaim=s())
        elif k == "zkc":
            l = rng.choice((1, 1, 2, 2, 3))
            T = [s.vec(1 << l) for _ in range(4)]
            f = rng.choice(("a(bc-d)", "a(bc-d)", "abc+d"))
            t = sum((a * (b * c - d) if f[0:2] == "a(" else a * b * c + d) for a, b, c, d in zip(*map(ints, T))) % P
            e.update(A=T[0], B=T[1], C=T[2], D=T[3], f=f, claim=hx(t) if true else s(), bclaim=s())
        out.append(e)
    return out


class Gens:
    """the generators, by label and size, from the code (C05 checks them)"""

    def __init__(self, drv):
        self.drv, self.have = drv, {}

    def fetch(self, keys):
        todo = sorted({(l, n) for l, n in keys} - set(self.have))
        for (l, n), o in zip(todo, vt.drive(self.drv, [{"op": "gens", "label": l, "n": n} for l, n in todo])):
            if "one" not in o:
                raise vt.ToolError("generators: " + str(o))
            self.have[l, n] = o

    def pick(self, l, n, *names):
        return {k: self.have[l, n][k] for k in names}


WANT = {"know": ("one",), "eq": ("one",), "prod": ("one",), "dot": ("one", "n"), "log": ("log",), "open": ("log",), "zkq": ("one", "three"), "zkc": ("one", "four"), "zk": ("one", "three", "four"),
        "nizk": ("log", "three", "four")}


def dress(gens, evs):
    """adds what the specification needs to what the driver recorded"""
    gens.fetch([(e["label"], e.get("n", 1)) for e in evs if "label" in e])
    for e in evs:
        k = kind(e)
        if k in WANT and "label" in e:
            e["g"] = gens.pick(e["label"], e.get("n", 1), *WANT[k])
        if "proof" in e and "pf" not in e and e.get("ok"):
            e["pf"] = bc.parse(SCH[k], e["proof"])
        if "comm" in e and "commv" not in e and k == "open":
            e["commv"] = bc.parse(bc.vec("C"), e["comm"])
        if k in ("zkq", "zkc"):
            e["degree"] = 2 if k == "zkq" else 3


def verifications(rng, e, full, per):
    """requests to the verifier on an honest run e: the proof as it is, altered, for other statements"""
    s = Src(rng)
    k = kind(e)
    base = {"op": ("zk" if k[:2] == "zk" else k) + "_v", "label": e["label"], "seed": e["seed"]}
    sch = SCH[k]
    pool = some_points(rng, 3) + [p for q in ([e[c] for c in POINTS.get(k, ()) if c in e] + [e.get("cclaim")]) if q for p in [q]]
    if k in ("know", "eq", "prod"):
        base.update({c: e[c] for c in POINTS[k]})
    elif k in ("dot", "log"):
        base.update(n=e["n"], a=e["a"], Cx=e["Cx"], Cy=e["Cy"])
    elif k == "open":
        base.update(n=e["n"], r=e["r"], comm=e["comm"], czr=e["czr"])
    else:
        d = 2 if k == "zkq" else 3
        base.update(cclaim=e["cclaim"], rounds=len(e["A"]).bit_length() - 1, degree=d, ng=d + 1)

    def req(pf, **kw):
        return dict(dup(base), proof=bc.emit(sch, pf), pf=dup(pf), **kw)
    out = [req(e["pf"], twin=1)]
    if e.get("true"):
        out[0]["must"] = True
    if k == "open" and e["br"] == "0":
        out.append(dict(req(e["pf"]), plain=e["zr"]))
        out.append(dict(req(e["pf"]), plain=s()))
    for pf in alterations(rng, s, sch, e["pf"], pool, None if full else per):
        out.append(req(pf))
    o = req(e["pf"])                                                # the wrong history
    o["seed"] = s()
    out.append(o)
    for c in ("C", "C1", "C2", "X", "Y", "Z", "Cx", "Cy", "czr", "cclaim"):
        if c in base and (full or rng.random() < .4):
            o = req(e["pf"])
            o[c] = other_point(rng, o[c], pool)
            out.append(o)
    for c in ("a", "r"):
        if c in base and k != "know":
            for _ in range(3 if full else 1):
                o = req(e["pf"])
                if o[c]:
                    i = rng.randrange(len(o[c]))
                    o[c][i] = other_scalar(rng, s, o[c][i])
                    if any(ints(o[c])) or c == "r":
                        out.append(o)
    if k == "dot":
        o = req(e["pf"])
        o["a"] = o["a"] + ["0"]
        out.append(dup(o))
        o["n"] += 1
        out.append(dup(o))
        o["pf"]["z"].append("0")
        o["proof"] = bc.emit(sch, o["pf"])
        out.append(o)
    if k in ("log", "open") and "gamma" in e:                       # the folded commitment slipped in as one more R
        pf = dup(e["pf"])
        pf["R"].append(e["gamma"])
        out.append(req(pf))
        o = req(pf)
        if k == "log":
            o["Cy"] = o["Cx"]
        else:
            o["czr"] = rng.choice(pool[:3])
        out.append(o)
    if k == "open":
        c = bc.parse(bc.vec("C"), e["comm"])
        for m in ("alter", "drop", "swap"):
            v = list(c)
            i = rng.randrange(len(v))
            if m == "alter":
                v[i] = other_point(rng, v[i], pool)
            elif m == "drop":
                del v[i]
            elif len(v) > 1:
                v[i], v[i - 1] = v[i - 1], v[i]
            o = req(e["pf"])
            o["comm"] = bc.emit(bc.vec("C"), v)
            out.append(o)
    if k[:2] == "zk":
        for f, v in (("rounds", base["rounds"] + 1), ("degree", base["degree"] + 1), ("degree", base["degree"] - 1)):
            if rng.random() < (1 if full else .2):
                o = req(e["pf"])
                o[f] = v
                if f == "degree" and v in (2, 3):
                    o["ng"] = v + 1
                if o["degree"] in (2, 3):
                    out.append(o)
    return out


def slim(p):
    """what the specification does not look at"""
    for e in p:
        for k in ("proof", "comm", "err", "seed", "label"):
            e.pop(k, None)
        if e["op"].endswith("_v") and e["op"] != "wasm_v":
            e.pop("tapes", None)
        if e["op"].startswith("wasm"):
            e.pop("witness", None)
    return p


def protocol_traces(c, drv, kinds, n, per, full_every):
    rng = c.rng
    gens = Gens(drv)
    first = vt.drive_parallel(drv, [[e] for e in statements(rng, n, kinds)])
    dress(gens, [p[0] for p in first])
    for (e,) in first:                                              # the commitment the folding of a logarithmic proof starts from
        if kind(e) in ("log", "open") and e.get("ok"):
            r = [int.from_bytes(bytes.fromhex(x[2]), "little") % P for x in e["log"] if x[0] == "c"][0]
            cx, cy = e.get("Cx"), e.get("Cy", e.get("czr"))
            if kind(e) == "open":
                L = e["r"][:len(e["r"]) // 2]
                w = [1]
                for x in ints(L):
                    w = [y * t % P for y in w for t in (1 - x, x)]
                e["gamma"] = [[hx(a), q] for a, q in zip(w, e["commv"])] + [[hx(r), cy]]
            else:
                e["gamma"] = [["1", cx], [hx(r), cy]]
    want = [e for (e,) in first if "gamma" in e]
    for e, o in zip(want, vt.drive(drv, [{"op": "points", "sums": [e["gamma"] for e in want]}])[0]["out"] if want else []):
        e["gamma"] = o
    second = []
    for i, (e,) in enumerate(first):
        second.append(verifications(rng, e, i % full_every < len(kinds) and i < len(kinds) * 2, per) if e.get("ok") else [])
    it = iter(vt.drive_parallel(drv, [x for x in second if x]))
    done = [p + (next(it) if x else []) for p, x in zip(first, second)]
    dress(gens, [e for p in done for e in p])
    return [slim(p) for p in done]


# ------------------------------------------------------------------ a prover of our own
class Forge:
    """A prover that chooses its nonces (often 0), its values (often 0) and its lies.  Points are sums of
    multiples of generators; challenges are those the real verifier draws when it is shown what there is."""

    def __init__(self, drv, gens):
        self.drv, self.gens = drv, gens

    def run(self, plans):
        """plans: generators that yield ('points', sums) or ('ask', request) and receive the answers; the last request is kept"""
        live = [(p, None) for p in plans]
        out = []
        while live:
            asks = []
            for p, v in live:
                try:
                    asks.append((p, p.send(v)))
                except StopIteration as e:
                    out.append(e.value)
            reqs = [{"op": "points", "sums": x} if w == "points" else x for _, (w, x) in asks]
            live = [(p, o["out"] if w == "points" else o) for (p, (w, _)), o in zip(asks, [o for q in vt.drive_parallel(self.drv, [[r] for r in reqs]) for o in q])] if reqs else []
        return out


def challenges(o):
    return [int.from_bytes(bytes.fromhex(x[2]), "little") % P for x in o["log"] if x[0] == "c"]


def forgery(rng, g, k, base):
    """one plan: statement and proof of kind k over the generators g"""
    s = Src(rng)
    num = lambda: 0 if rng.random() < .4 else int(s(), 16)
    pad = lambda v, a: {"G%d" % i: x for i, x in enumerate(v)} | {"h": a}
    one, gn = g["one"], g["n"] if k == "dot" else g["log"] if k == "log" else g["one"]
    base_of = {"h": gn["h"], "h1": one["h"], "Q": one["G"][0]} | {"G%d" % i: x for i, x in enumerate(gn["G"])}
    e = dict(base, op=k + "_v")
    lie = rng.random() < .5
    pts, resp = {}, None

    def sums(names, extra=None):
        return [[[hx(v % P), (extra or {}).get(b) or base_of[b]] for b, v in pts[n].items() if v % P] for n in names]

    def spoil(names):                                                # one point is another
        n = rng.choice(names)
        b = rng.choice([x for x in pts[n] if x in base_of] or ["h"])
        pts[n][b] = pts[n].get(b, 0) + rng.choice((1, P - 1, num() or 2))
    if k == "know":
        x, r, t1, t2 = (num() for _ in range(4))
        pts = {"C": pad([x], r), "alpha": pad([t1], t2)}
        resp = lambda c: {"z1": c * x + t1, "z2": c * r + t2}
        first, then, sch = ["C"], ["alpha"], ["z1", "z2"]
    elif k == "eq":
        v, a, b, t = (num() for _ in range(4))
        pts = {"C1": pad([v], a), "C2": pad([num() if lie else v], b), "alpha": {"h": t}}
        resp = lambda c: {"z": c * (a - b) + t}
        first, then, sch = ["C1", "C2"], ["alpha"], ["z"]
    elif k == "prod":
        x, rx, y, ry, rz, b1, b2, b3, b4, b5 = (num() for _ in range(10))
        z = num() if lie else x * y
        pts = {"X": pad([x], rx), "Y": pad([y], ry), "Z": pad([z], rz), "alpha": pad([b1], b2), "beta": pad([b3], b4), "delta": {"X": b3, "h": b5}}
        resp = lambda c: {"z": [b1 + c * x, b2 + c * rx, b3 + c * y, b4 + c * ry, b5 + c * (rz - rx * y)]}
        first, then, sch = ["X", "Y", "Z"], ["alpha", "beta", "delta"], ["z"]
    else:
        n = base["n"]
        zero = rng.random() < .4
        x = [0 if zero else num() for _ in range(n)]
        a = next(v for v in iter(lambda: [num() for _ in range(n)], None) if any(v))
        y = num() if lie else inner(map(hx, x), map(hx, a))
        rx, ry = num(), num()
        e["a"] = [hx(v) for v in a]
        first = ["Cx", "Cy"]
        if k == "dot":
            d = [0 if rng.random() < .5 or zero else num() for _ in range(n)]
            rd, rb = num(), num()
            pts = {"Cx": pad(x, rx), "Cy": {"Q": y, "h1": ry}, "delta": pad(d, rd), "beta": {"Q": inner(map(hx, a), map(hx, d)), "h1": rb}}
            resp = lambda c: {"z": [c * p + q for p, q in zip(x, d)], "z_delta": c * rx + rd, "z_beta": c * ry + rb}
            then = ["delta", "beta"]
        else:
            pts = {"Cx": pad(x, rx), "Cy": {"G%d" % n: y, "h": ry}}
            then = []
    if rng.random() < .3:
        spoil(first + then if k != "prod" else first + ["alpha", "beta"])
    for q, v in zip(first, (yield "points", sums(first))):
        e[q] = v
    ask = lambda pf: ("ask", dict(dup(e), proof=bc.emit(SCH[k], pf), pf=dup(pf)))
    if k != "log":
        pf = dict(zip(then, (yield "points", sums(then, {"X": e.get("X")}))))
        nul = resp(0)
        pf.update({q: ["0"] * len(v) if isinstance(v, list) else "0" for q, v in nul.items()})
        o = yield ask(pf)
        ch = challenges(o)
        if not ch:
            return dup(o)
        pf.update({q: [hx(t % P) for t in v] if isinstance(v, list) else hx(v % P) for q, v in resp(ch[0]).items()})
    else:
        n = base["n"]
        r = n.bit_length() - 1
        pf = {"L": ["00"] * r, "R": ["00"] * r, "delta": "00", "beta": "00", "z1": "0", "z2": "0"}
        o = yield ask(pf)
        if not challenges(o):
            return dup(o)
        rr = challenges(o)[0]
        G = [{"G%d" % i: 1} for i in range(n)]
        lin = lambda ks, vs: {b: sum(t * v.get(b, 0) for t, v in zip(ks, vs)) for b in set().union(*vs)}
        rq = {"G%d" % n: rr}
        h, xs, as_, bl = {"h": 1}, x, a, rx + rr * ry
        for j in range(r):
            m = len(xs) // 2
            bL, bR = num(), num()
            pts["L"] = lin(xs[:m] + [sum(p * q for p, q in zip(xs[:m], as_[m:])), bL], G[m:] + [rq, h])
            pts["R"] = lin(xs[m:] + [sum(p * q for p, q in zip(xs[m:], as_[:m])), bR], G[:m] + [rq, h])
            if rng.random() < .08:
                spoil(["L", "R"])
            pf["L"][j], pf["R"][j] = yield "points", sums(["L", "R"])
            o = yield ask(pf)
            if len(challenges(o)) < j + 2:
                return dup(o)
            u = challenges(o)[j + 1]
            w = pow(u, -1, P)
            xs = [u * p + w * q for p, q in zip(xs[:m], xs[m:])]
            as_ = [w * p + u * q for p, q in zip(as_[:m], as_[m:])]
            G = [lin([w, u], [p, q]) for p, q in zip(G[:m], G[m:])]
            bl = u * u * bL + bl + w * w * bR
        d, rd, rb = num(), num(), num()
        pts["delta"], pts["beta"] = lin([d, rd], [G[0], h]), lin([d, rb], [rq, h])
        if rng.random() < .1:
            spoil(["delta", "beta"])
        pf["delta"], pf["beta"] = yield "points", sums(["delta", "beta"])
        o = yield ask(pf)
        if len(challenges(o)) < r + 2:
            return dup(o)
        cc = challenges(o)[r + 1]
        pf["z1"], pf["z2"] = hx((as_[0] * cc * xs[0] + d) % P), hx((as_[0] * (cc * bl + rb) + rd) % P)
    return (yield ask(pf))


def forgeries(c, drv, n):
    gens = Gens(drv)
    base = []
    for i in range(n):
        k = ("dot", "prod", "log", "eq", "dot", "know", "log")[i % 7]
        base.append((k, {"label": c.rng.choice(LABELS), "seed": Src(c.rng)()} | ({"n": c.rng.choice((1, 2, 3, 4) if k == "dot" else (1, 2, 4, 2, 8))} if k in ("dot", "log") else {})))
    gens.fetch([(b["label"], b.get("n", 1)) for _, b in base])
    f = Forge(drv, gens)
    done = f.run([forgery(c.rng, gens.pick(b["label"], b.get("n", 1), "one", "n", "log"), k, b) for k, b in base])
    dress(gens, done)
    t = c.cov.setdefault("forged", {})
    for e in done:
        q = "%s:%s" % (e["op"], e.get("ok", "panic"))
        t[q] = t.get(q, 0) + 1
    return slim_all([[e] for e in done])


def slim_all(ps):
    return [slim(p) for p in ps]


def tally(c, done):
    t = c.cov.setdefault("answers", {})
    for p in done:
        for e in p:
            k = "%s:%s" % (e["op"], e.get("ok", "panic" if "panic" in e else "-"))
            t[k] = t.get(k, 0) + 1
    return t


def flip(c, done, what):
    good = lambda e: e["op"].endswith("_v") and e.get("ok") and any(y[0] == "c" for y in e["log"])
    ps = [p for p in done if any(good(e) for e in p)]
    if ps:
        def corrupt(ps):
            e = [e for e in ps[0] if good(e)][-1]
            x = [i for i, y in enumerate(e["log"]) if y[0] == "c"][-1]
            h = e["log"][x][2]
            e["log"][x][2] = ("1" if h[0] != "1" else "2") + h[1:]
            e.pop("twin", None)
        c.nonvacuous("TraceProto", ps[:1], corrupt, what, constants=CONST)


def committed_sumcheck(c):
    drv, bt = vt.build("full", "drv_proto")
    done = protocol_traces(c, drv, ("zkq", "zkc"), c.n(40, 800), 4, 100)
    vt.log(tally(c, done))
    if c.trace("TraceProto", done, "sum-check with committed messages", constants=CONST):
        flip(c, done, "sum-check with committed messages")


# ------------------------------------------------------------------ satisfaction
def some_system(rng, s, nc, nv, ni, sat=True):
    """a system and an assignment; every column is likely to matter, or none, or all alike"""
    k = rng.random() if sat else 1
    if k < .05:                                     # nothing is asked of the assignment, and the matrices evaluate to 0 everywhere
        return {"nc": nc, "nv": nv, "ni": ni, "vars": [s() for _ in range(nv)], "inputs": [s() for _ in range(ni)], "A": [], "B": [], "C": []}
    if k < .1:                                      # all columns alike, and all rows
        nc, nv = 2, p2(min(4, max(nv, ni + 1)))
        ni = nv - 1
        z = [int(s(), 16) for _ in range(nv + ni)]
        u, v = int(s(), 16), int(s(), 16)
        w = u * v * (sum(z) + 1) % P
        every = lambda x: [[r, j, hx(x)] for r in range(nc) for j in range(nv + 1 + ni)]
        return {"nc": nc, "nv": nv, "ni": ni, "vars": [hx(x) for x in z[:nv]], "inputs": [hx(x) for x in z[nv:]], "A": every(u), "B": every(v), "C": every(w)}
    z = [int(s(), 16) for _ in range(nv)]
    x = [int(s(), 16) for _ in range(ni)]
    full = z + [1] + x
    n = len(full)
    M = {k: [] for k in "ABC"}
    for r in range(nc):
        for k in "AB":
            for _ in range(rng.choice((1, 1, 2, 3))):
                M[k].append([r, rng.randrange(n), int(s(), 16)])
        for _ in range(rng.choice((0, 0, 1, 2))):
            M["C"].append([r, rng.randrange(n), int(s(), 16)])
        row = lambda k: sum(v * full[j] for q, j, v in M[k] if q == r) % P
        d = (row("A") * row("B") - row("C")) % P
        nz = [j for j in range(n) if full[j]]
        j = rng.choice(nz + [nv])
        if d:
            M["C"].append([r, j, d * pow(full[j], -1, P) % P])
    if not sat and nc:
        r = rng.randrange(nc)
        M["C"].append([r, nv, int(s(), 16) or 1])
    for k in "ABC":
        rng.shuffle(M[k])
    e = {"nc": nc, "nv": nv, "ni": ni, "vars": [hx(v) for v in z], "inputs": [hx(v) for v in x]}
    for k in "ABC":
        e[k] = [[r, j, hx(v)] for r, j, v in M[k]]
    return e


def p2(n):
    return 1 << max(0, (n - 1).bit_length())


def holds(e):
    full = (ints(e["vars"]) + [0] * e["nv"])[:e["nv"]] + [1] + ints(e["inputs"])
    for r in range(e["nc"]):
        a, b, k = (sum(int(v, 16) * full[j] for q, j, v in e[m] if q == r) % P for m in "ABC")
        if (a * b - k) % P:
            return False
    return True


def padded(e):
    nv = 1
    while nv < max(e["nv"], e["ni"] + 1):
        nv *= 2
    nc = 2
    while nc < e["nc"]:
        nc *= 2
    return nc, nv


def dress_nizk(gens, evs):
    evs = [e for e in evs if kind(e) in ("nizk", "wasm")]
    n = {}
    for e in evs:
        l = padded(e)[1].bit_length() - 1
        n[id(e)] = 1 << (l - l // 2)
    gens.fetch([("gens_r1cs_sat", k) for k in n.values()])
    for e in evs:
        e["g"] = gens.pick("gens_r1cs_sat", n[id(e)], *WANT["nizk"])
        if e["op"].endswith("_p") and e.get("ok"):
            e["pf"] = bc.parse(bc.NIZK, e["proof"])


def sizes(rng):
    return rng.choice((1, 1, 2, 2, 3, 4, 5)), rng.choice((1, 1, 2, 3, 4, 5, 8)), rng.choice((0, 0, 1, 1, 2, 3, 4))


def nizk_provers(rng, n, wasm=.3):
    s = Src(rng)
    out = []
    for i in range(n):
        e = some_system(rng, s, *sizes(rng), sat=rng.random() < .85)
        if e["nv"] > 1 and rng.random() < .25:                      # shorter than the system's variables
            k = rng.randrange(1, e["nv"])
            if rng.random() < .7:
                short = dict(e, vars=e["vars"][:k] + ["0"] * (e["nv"] - k))
                if not holds(short):
                    while e["nv"] != k:                             # columns k.. stay empty
                        e = some_system(rng, s, e["nc"], k, e["ni"])
                    sh = lambda M, k, nv: [[r, j if j < k else j - k + nv, v] for r, j, v in M]
                    nv = k + rng.randrange(1, 4)
                    for m in "ABC":
                        e[m] = sh(e[m], k, nv)
                    e["nv"] = nv
                else:
                    e["vars"] = e["vars"][:k]
        e["op"] = "nizk_p"
        e["seed"] = s()
        e["given"] = rng.random() < .5                              # generators for the sizes as given, or as padded
        if rng.random() < wasm:
            e["op"] = "wasm_p"
            e["witness"] = wtns_file(ints(e["vars"])).hex()
        out.append(e)
    return out


def large_provers(c):
    """sizes past what small systems reach: many rows, columns, generators and public inputs"""
    s = Src(c.rng)
    out = []
    for nc, nv, ni in c.n([(40, 60, 20)], [(40, 60, 20), (70, 20, 17), (9, 130, 3), (130, 100, 40), (17, 33, 64), (300, 260, 100), (5, 1030, 2)]):
        e = some_system(c.rng, s, nc, nv, ni)
        while len(e["A"]) < nc or e["nc"] < nc:
            e = some_system(c.rng, s, nc, nv, ni)
        out.append(dict(e, op="nizk_p", seed=s(), given=c.rng.random() < .5))
    return out


SYS = ("nc", "nv", "ni", "A", "B", "C")


def other_systems(rng, s, e):
    """systems one step away"""
    out = []
    for m in "ABC":
        if e[m]:
            o = dup({k: e[k] for k in SYS})
            t = rng.choice(o[m])
            k = rng.randrange(3)
            if k == 0 and e["nc"] > 1:
                t[0] = (t[0] + 1) % e["nc"]
            elif k == 1:
                t[1] = (t[1] + 1) % (e["nv"] + 1 + e["ni"])
            else:
                t[2] = other_scalar(rng, s, t[2])
            out.append(o)
    o = dup({k: e[k] for k in SYS})
    o[rng.choice("ABC")].append([rng.randrange(e["nc"]), rng.randrange(e["nv"] + 1 + e["ni"]), "1"])
    out.append(o)
    o = dup({k: e[k] for k in SYS})
    o["A"], o["B"] = o["B"], o["A"]
    out.append(o)
    return out


def nizk_verifications(rng, e, n_alter, n_other):
    """requests to the verifier on a proof: as it is, altered (n_alter None: every element), for other systems and inputs"""
    s = Src(rng)
    w = kind(e)
    base = dict({k: e[k] for k in SYS}, op=w + "_v", inputs=e["inputs"], seed=e["seed"], given=e["given"])
    pool = some_points(rng, 3) + e["pf"]["sat"]["comm_vars"] + list(e["pf"]["sat"]["claims2"])

    def req(pf=None, **kw):
        pf = e["pf"] if pf is None else pf
        return dict(dup(base), proof=bc.emit(bc.NIZK, pf), pf=dup(pf), **kw)
    out = [req(**({"twin": 1} if w == "nizk" else {}))]
    if holds(e):
        out[0]["must"] = True
    for pf in alterations(rng, s, bc.NIZK, e["pf"], pool, n_alter):
        out.append(req(pf))
    if n_alter is None or rng.random() < .3:                        # the folded commitment slipped in as one more R: needs its challenge
        pf = dup(e["pf"])
        pf["sat"]["open"]["R"].append(rng.choice(pool))
        out.append(req(pf))
    for i in range(e["ni"]):
        if n_other is None or rng.random() < .5:
            o = req()
            o["inputs"] = list(o["inputs"])
            o["inputs"][i] = other_scalar(rng, s, o["inputs"][i])
            out.append(o)
    for x in ([e["inputs"] + ["0"]] + [e["inputs"][:-1]] * (e["ni"] > 0) + [e["inputs"][::-1]] * (e["ni"] > 1)):
        if w == "nizk" or len(x) == e["ni"]:
            o = req()
            o["inputs"] = x
            out.append(o)
    for o2 in other_systems(rng, s, e)[:n_other]:
        out.append(dict(req(), **o2))
    o = req()
    o["seed"] = s()
    out.append(o) if w == "nizk" else None
    raw = bytes.fromhex(out[0]["proof"])
    for b in (raw[:-1], raw[:rng.randrange(len(raw))], raw[8:], b"", raw[:8], b"\xff" * 8 + raw[8:]):
        try:
            bc.parse(bc.NIZK, b.hex())
        except ValueError:
            o = dict(dup(base), proof=b.hex(), raw=True)
            out.append(o)
    return out


def nizk_traces(c, drv, n, full_every, n_alter, n_other, wasm=.3, provers=None):
    rng = c.rng
    gens = Gens(drv)
    first = vt.drive_parallel(drv, [[e] for e in (provers or nizk_provers(rng, n, wasm))])
    dress_nizk(gens, [p[0] for p in first])
    second = [nizk_verifications(rng, e, None if full_every and i % full_every == 0 else n_alter, n_other) if e.get("ok") else [] for i, (e,) in enumerate(first)]
    it = iter(vt.drive_parallel(drv, [x for x in second if x]))
    done = [p + (next(it) if x else []) for p, x in zip(first, second)]
    for p in done:
        for e in p:
            if e.pop("raw", None):
                e["op"] = "raw_v"
                for k in list(e):
                    if k not in ("op", "ok"):
                        del e[k]
    dress_nizk(gens, [e for p in done for e in p])
    return [slim(p) for p in done]


def c15(c):
    drv, bt = vt.build("full", "drv_proto")
    c.cov["build_s"] = round(bt, 1)
    done = nizk_traces(c, drv, 0, 0, 1, 1, provers=nizk_provers(c.rng, c.n(150, 2000), .5) + large_provers(c))
    vt.log(tally(c, done))
    if c.trace("TraceProto", done, "honest proofs", constants=CONST):
        flip(c, done, "honest proofs")
    chain_models(c)


IDEAL = {"GAdd": "FAdd", "GNeg": "FNeg", "GMul": "FMul", "GMsm": "FDot", "Pt": "Id", "Enc": "Id", "Bytes": "Id", "Decodes": "All", "NoPt": "Nought",
         "KnowRun": "IdKnow", "EqRun": "IdEq", "ProdRun": "IdProd", "DotRun": "IdDot", "OpenRun": "IdOpen"}


def chain_models(c):
    """the composed verifier as a game, with ideal building blocks"""
    def small(k):                                       # x * x = k and x = x
        return dict(nc=2, nv=1, ni=0, A=[[0, 0, 1], [1, 1, 1]], B=[[0, 0, 1], [1, 0, 1]], C=[[0, 1, k], [1, 0, 1]], inputs=[])

    def wide(i):                                        # x * y = i and x + y = 3, i public
        return dict(nc=2, nv=2, ni=1, A=[[0, 0, 1], [1, 0, 1], [1, 1, 1]], B=[[0, 1, 1], [1, 2, 1]], C=[[0, 3, 1], [1, 2, 3]], inputs=[i])

    def m(what, systems, wits, inv, lead=(0,), pairs=((1, 0), (0, 1), (1, 2)), combos=((1, 2, 3), (1, 1, 1)), omit=(), expect="ok"):
        c.model("MC_R1csProof", what, expect, deadlock=False, subst=IDEAL, view="View", invariants=inv,
                constants={"P": 5, "BIG": False, "NB": 13, "Systems": systems, "Wits": set(wits), "Lead": set(lead), "Pairs": set(pairs),
                           "Combos": set(combos), "Omit": set(omit)})
    every = ["Sound", "Complete", "FewTau", "FewCombos"]
    m("satisfied, honest or not", [small(4)], [2], every)
    m("not satisfied", [small(2)], [0, 1] if c.thorough else [1], every)
    if c.thorough:
        m("not satisfied, more polynomials", [small(3)], [0, 3], every, lead=(0, 1, 4), pairs=((1, 0), (0, 1), (1, 2), (3, 1)))
        m("won by luck only", [small(2)], [1], ["NoLuck"], expect="error")
        for o in ("rounds", "product", "first", "second", "open"):
            m("needs: " + o, [small(2)], [0, 1], ["Sound"], omit=(o,), expect="error")
        m("a public input", [wide(2)], [1, 2], every, pairs=((1, 0), (0, 1)), combos=((1, 2, 3),))


def c16(c):
    drv, bt = vt.build("full", "drv_proto")
    c.cov["build_s"] = round(bt, 1)
    done = nizk_traces(c, drv, 0, c.n(15, 20), 6, None, provers=nizk_provers(c.rng, c.n(60, 600)) + large_provers(c)[:2])
    vt.log(tally(c, done))
    if c.trace("TraceProto", done, "proofs, altered and for other statements", constants=CONST):
        flip(c, done, "proofs")


GENERIC = {"GAdd": "VAdd", "GNeg": "VNeg", "GMul": "VMul", "GMsm": "VMsm", "Pt": "Id", "Enc": "Id", "Bytes": "Id", "Decodes": "All"}


def sigma_models(c):
    def m(kinds, p, d, small, inv):
        c.model("MC_Sigma", "%s over a generic group of %d-vectors, P=%d" % ("/".join(sorted(kinds)), d, p), deadlock=False, subst=GENERIC, invariants=inv,
                constants={"P": p, "BIG": False, "NB": 13, "D": d, "Explored": kinds, "Small": small})
    lin = ["Sound", "Extract", "Complete"]
    m({"know", "eq"}, c.n(3, 5), 2, {0, 1}, lin + ["Simulates"])
    m({"prod"}, 3, 2, {0, 1}, lin)
    m({"dot"}, c.n(2, 3), 4, {0, 1}, lin)
    m({"fold"}, 11, 4, {0, 1}, ["FoldSound", "FoldComplete"])
    m({"last"}, 3, 3, {0, 1}, ["LastSound", "Degenerate"])


def c18(c):
    drv, bt = vt.build("full", "drv_proto")
    c.cov["build_s"] = round(bt, 1)
    rng = c.rng
    n = c.n(40, 500)
    provers = []
    while len(provers) < n:
        e = nizk_provers(rng, 1, 0)[0]
        if holds(e):
            provers.append(e)
    gens = Gens(drv)
    done = [[] for _ in provers]
    for _ in range(2):                              # in one process and in processes of their own: a fixed seed would repeat
        for k, p in enumerate(vt.drive_parallel(drv, [[dup(e) for _ in range(c.n(2, 3))] for e in provers])):
            done[k] += p
    for p in done:
        dress_nizk(gens, p)
        seeds, leaves = [], []
        for e in p:
            e["op"] = "hide_p"
            if not e.get("ok"):
                continue
            t = [[x for x in tape if x[0] == "a"] for tape in e["tapes"]]
            seeds.append("".join(x[2] for tape in t for x in tape) if any(x[2].strip("0") for tape in t for x in tape) else "0")
            # points at infinity and equal values within one proof are not looked at; what is the verifier's is not the prover's
            leaves.append(sorted({str(bc.get(e["pf"], q)) for _, q in bc.places(bc.NIZK, e["pf"]) if _ in ("S", "C")} - {"00"}))
        p.append({"op": "fresh", "seeds": seeds, "leaves": leaves, "ok": True, "log": []})
    slim_done = [slim(p) for p in done]
    vt.log(tally(c, done))
    if c.trace("TraceProto", slim_done, "blindings and nonces of proofs", constants=CONST):
        def corrupt(ps):
            e = ps[0][0]
            e["pf"]["sat"]["eq2"]["z"] = hx((int(e["pf"]["sat"]["eq2"]["z"], 16) + 1) % P)
        c.nonvacuous("TraceProto", slim_done[:1], corrupt, "nonces", constants=CONST)


def c13(c):
    sigma_models(c)
    drv, bt = vt.build("full", "drv_proto")
    c.cov["build_s"] = round(bt, 1)
    done = protocol_traces(c, drv, ("know", "eq", "prod", "dot", "log", "open"), c.n(300, 4000), 3, 300)
    vt.log(tally(c, done))
    made = forgeries(c, drv, c.n(140, 2000))
    vt.log("forged: %s" % c.cov["forged"])
    c.trace("TraceProto", made, "proofs of a deviating prover", constants=CONST)
    if c.trace("TraceProto", done, "building blocks", constants=CONST):
        flip(c, done, "building blocks")
    c.sample({k: v for k, v in done[0][0].items() if k not in ("log", "tapes", "g")})
