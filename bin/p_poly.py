"""C11, C12: polynomials, the sum-check protocol in the clear, the product circuits."""
import json
import bc, vt
from vt import hx

P = 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f
PC = {"P": hx(P), "BIG": True, "Regs": 15}
SC = {"P": hx(P), "BIG": True}


class Src:
    """scalars: random ones, small ones, limits, often equal ones"""

    def __init__(self, rng):
        self.rng = rng
        self.pool = vt.field_pool(rng, P, 24)

    def __call__(self):
        k = self.rng.random()
        if k < .12:
            return "0"
        if k < .24:
            return "1"
        if k < .34:
            return hx(self.rng.choice((2, 3, P - 1, P - 2, (P + 1) // 2)))
        if k < .6:
            return hx(self.rng.choice(self.pool))
        return hx(self.rng.randrange(P))

    def vec(self, n):
        k = self.rng.random()
        if k < .06:
            return ["0"] * n
        if k < .12:
            return [self()] * n
        if k < .2:
            return [hx(self.rng.randrange(2)) for _ in range(n)]
        v = [self() for _ in range(n)]
        if k < .3:                                       # a single nonzero entry
            j = self.rng.randrange(n) if n else 0
            v = [x if i == j else "0" for i, x in enumerate(v)]
        return v


def poly_program(rng, big):
    s = Src(rng)
    vars_ = {i: 0 for i in range(1, 16)}
    bound = set()
    ev = []
    for _ in range(rng.randrange(4, 14)):
        op = rng.choice(("new", "new", "ints", "clone", "clone", "top", "top", "bot", "split", "extend", "merge", "eval", "eval", "bound", "eqtable", "eqat",
                         "factored", "identity", "sparse", "mats", "uni", "uni", "dot", "prodcircuit", "dotcircuit"))
        d, a = rng.randrange(1, 16), rng.randrange(1, 16)
        free = [i for i in vars_ if i not in bound]
        if op in ("new", "ints"):
            k = rng.randrange(0, 6 if big else 5)
            z = s.vec(1 << k) if op == "new" else [rng.choice((0, 1, 2, 3, 7, 255, 65535, 1 << 30, (1 << 31) - 1, rng.randrange(1 << 31))) for _ in range(1 << k)]
            vars_[d] = k
            bound.discard(d)
            ev.append({"op": op, "d": d, "z": z})
        elif op == "clone":
            if bound and rng.random() < .7:              # of one with variables fixed
                a = rng.choice(sorted(bound))
            vars_[d] = vars_[a]
            bound.discard(d)
            ev.append({"op": op, "d": d, "a": a})
            k = rng.random()                             # and what the copy is good for
            if k < .35:
                ev.append({"op": "eval", "a": d, "r": s.vec(vars_[d])})
            elif k < .5 and vars_[d] > 0:
                e1, e2 = rng.sample([i for i in range(1, 16) if i != d], 2)
                ev.append({"op": "split", "a": d, "k": 1 << (vars_[d] - 1), "d": e1, "d2": e2})
                vars_[e1] = vars_[e2] = vars_[d] - 1
                bound -= {e1, e2}
            elif k < .65 and vars_[d] < 5:
                o = rng.choice([i for i in vars_ if i not in bound and vars_[i] == vars_[d]])
                ev.append({"op": "extend", "d": d, "a": o})
                vars_[d] += 1
            elif k < .8:
                e1 = rng.choice([i for i in range(1, 16) if i != d])
                ev.append({"op": "merge", "d": e1, "as": [d, d] if vars_[d] < 6 else [d]})
                vars_[e1] = vars_[d] + 1 if vars_[d] < 6 else vars_[d]
                bound.discard(e1)
            elif k < .9:
                ev.append({"op": "bound", "a": d, "L": s.vec(1 << (vars_[d] // 2))})
        elif op in ("top", "bot"):
            c = [i for i in vars_ if vars_[i] > 0]
            if not c:
                continue
            d = rng.choice(c)
            vars_[d] -= 1
            bound.add(d)
            ev.append({"op": op, "d": d, "r": s()})
            if vars_[d] and rng.random() < .5:
                vars_[d] -= 1
                ev.append({"op": rng.choice(("top", "bot")), "d": d, "r": s()})
        elif op == "split":
            c = [i for i in free if vars_[i] > 0]
            if not c:
                continue
            a = rng.choice(c)
            d, d2 = rng.sample(range(1, 16), 2)
            k = 1 << (vars_[a] - 1)
            ev.append({"op": op, "a": a, "k": k, "d": d, "d2": d2})
            vars_[d] = vars_[d2] = vars_[a] - 1
            bound -= {d, d2}
        elif op == "extend":
            c = [(i, j) for i in free for j in free if vars_[i] == vars_[j] and vars_[i] < 5]
            if not c:
                continue
            d, a = rng.choice(c)
            vars_[d] += 1
            ev.append({"op": op, "d": d, "a": a})
        elif op == "merge":
            as_ = [rng.choice(free) for _ in range(rng.randrange(1, 5))] if free else []
            n = sum(1 << vars_[i] for i in as_)
            if not as_ or n > 64:
                continue
            vars_[d] = (n - 1).bit_length()
            bound.discard(d)
            ev.append({"op": op, "d": d, "as": as_})
        elif op == "eval":
            if not free:
                continue
            a = rng.choice(free)
            ev.append({"op": op, "a": a, "r": s.vec(vars_[a])})
        elif op == "bound":
            if not free:
                continue
            a = rng.choice(free)
            ev.append({"op": op, "a": a, "L": s.vec(1 << (vars_[a] // 2))})
        elif op in ("eqtable", "factored", "identity"):
            ev.append({"op": op, "r": s.vec(rng.randrange(0, 61 if op == "identity" and rng.random() < .4 else 6))})
        elif op == "eqat":
            k = rng.randrange(0, 41 if rng.random() < .2 else 6)
            r = s.vec(k)
            ev.append({"op": op, "r": r, "x": list(r) if rng.random() < .2 else s.vec(k)})
        elif op == "sparse":
            k = rng.randrange(0, 31 if rng.random() < .2 else 6)
            ev.append({"op": op, "r": s.vec(k), "s": [[rng.randrange(1 << k), s()] for _ in range(rng.randrange(0, 6))]})
        elif op == "mats":
            nx, ny = rng.randrange(0, 4), rng.randrange(0, 4)
            M = []
            for _ in range(rng.randrange(1, 4)):
                M.append([[rng.randrange(1 << nx), rng.randrange(1 << ny), s()] for _ in range(rng.randrange(0, 9))])
                if M[-1] and rng.random() < .3:          # two entries at one place
                    M[-1].append([M[-1][0][0], M[-1][0][1], s()])
            ev.append({"op": op, "M": M, "rx": s.vec(nx), "ry": s.vec(ny), "z": s.vec(1 << ny), "x": s.vec(1 << nx)})
        elif op == "uni":
            v = s.vec(rng.choice((3, 4)))
            hint = hx((int(v[0], 16) + int(v[1], 16)) % P) if rng.random() < .6 else s()
            ev.append({"op": op, "evals": v, "xs": ["0", "1", "2", "3", s(), s()], "hint": hint})
        elif op == "dot":
            n = rng.randrange(0, 7)
            ev.append({"op": op, "a": s.vec(n), "b": s.vec(n if rng.random() < .9 else n + rng.choice((1, 2)))})
        elif op == "prodcircuit":
            ev.append({"op": op, "z": s.vec(1 << rng.randrange(1, 5))})
        elif op == "dotcircuit":
            k = 1 << rng.randrange(1, 4)
            ev.append({"op": op, "a": s.vec(k), "b": s.vec(k), "w": s.vec(k)})
    return ev or [{"op": "eqtable", "r": []}]


def large_program(rng, k):
    """the same operations on tables of 2^k entries, without the repetitions"""
    s = Src(rng)
    z = lambda k: [s() for _ in range(1 << k)]
    v = s.vec
    return [{"op": "new", "d": 1, "z": z(k)}, {"op": "eval", "a": 1, "r": v(k)}, {"op": "bound", "a": 1, "L": v(1 << (k // 2))},
            {"op": "clone", "d": 2, "a": 1}, {"op": "top", "d": 2, "r": s()}, {"op": "bot", "d": 2, "r": s()},
            {"op": "split", "a": 1, "k": 1 << (k - 1), "d": 3, "d2": 4}, {"op": "extend", "d": 4, "a": 3},
            {"op": "merge", "d": 5, "as": [1, 3, 4]}, {"op": "eqtable", "r": v(k)}, {"op": "factored", "r": v(k)},
            {"op": "mats", "M": [[[rng.randrange(1 << k), rng.randrange(1 << k), s()] for _ in range(200)] for _ in range(3)], "rx": v(k), "ry": v(k), "z": z(k), "x": z(k)},
            {"op": "dot", "a": v(1 << k), "b": v(1 << k)}, {"op": "prodcircuit", "z": z(k)}, {"op": "dotcircuit", "a": z(k), "b": z(k), "w": z(k)}]


def c11(c):
    c.model("MC_Poly", "every table of up to 2 variables over P=3, 1 over P=5", constants={"P": 3, "BIG": False, "MaxVars": 2},
            invariants=["Extends", "Linear", "Binds", "Splits", "Merges", "Factors", "Eqs", "Identity"], deadlock=False)
    c.model("MC_Poly", "univariate polynomials over P=5", constants={"P": 5, "BIG": False, "MaxVars": c.n(0, 1)},
            invariants=["Extends", "Linear", "Binds", "Factors", "Eqs", "Uni"], deadlock=False)
    drv, bt = vt.build("full", "drv_poly")
    c.cov["build_s"] = round(bt, 1)
    done = vt.drive_parallel(drv, [poly_program(c.rng, k % 4 == 0) for k in range(c.n(1200, 20000))] + [large_program(c.rng, k) for k in c.n((7, 9, 11), (7, 8, 9, 10, 11, 12, 13))])
    ok = c.trace("TracePoly", done, "polynomial operations", constants=PC)
    t = {}
    for p in done:
        for e in p:
            t[e["op"]] = t.get(e["op"], 0) + 1
    c.cov["operations"] = t
    if ok:
        def corrupt(ps):
            e = [e for e in ps[0] if e["op"] == "eval"][-1]
            e["out"] = hx((int(e["out"], 16) + 1) % P)
        c.nonvacuous("TracePoly", [p for p in done if any(e["op"] == "eval" for e in p)][:1], corrupt, "polynomials", constants=PC)
    c.sample(done[0][:3])


# ------------------------------------------------------------------ sum-check in the clear
def comb(f, a, b, c):
    return a * b * c if f == "abc" else a * b - c if f == "ab-c" else a * (b - c)


def ints(v):
    return [int(x, 16) for x in v]


def total(f, A, B, C):
    return sum(comb(f, *t) for t in zip(ints(A), ints(B), ints(C))) % P


def parsed(drv, progs, schema):
    done = vt.drive_parallel(drv, progs)
    for p in done:
        for e in p:
            s = schema(e)
            if s and "proof" in e:
                e["pf"] = bc.parse(s, e["proof"])
    return done


def alter(rng, s, v, schema):
    """one alteration of a parsed proof"""
    v = json.loads(json.dumps(v))
    pl = list(bc.places(schema, v))
    leaves = [p for k, p in pl if k == "S"]
    vecs = [p for k, p in pl if k == "v"]
    k = rng.random()
    if k < .55 and leaves:
        p = rng.choice(leaves)
        x = int(bc.get(v, p), 16)
        bc.put(v, p, rng.choice((hx((x + 1) % P), hx((x - 1) % P), "0", hx((P - x) % P), s(), hx((2 * x) % P))))
    elif k < .7 and len(leaves) > 1:                     # two entries exchanged
        p, q = rng.sample(leaves, 2)
        x, y = bc.get(v, p), bc.get(v, q)
        bc.put(v, p, y)
        bc.put(v, q, x)
    elif vecs:
        p = rng.choice(vecs)
        t = bc.get(v, p) if p else v
        m = rng.random()
        if m < .4 and t:
            del t[rng.randrange(len(t))]
        elif m < .8 and t:
            t.insert(rng.choice((len(t), len(t), rng.randrange(len(t) + 1))), json.loads(json.dumps(rng.choice(t))))
        elif t and isinstance(t[0], str):
            t.append("0")
        elif t:
            t.append(json.loads(json.dumps(t[-1])))
    return v


def sum_programs(c, drv):
    rng = c.rng
    s = Src(rng)
    first = []
    for _ in range(c.n(160, 3000)):
        n, f, k = rng.choice((0, 1, 1, 2, 2, 3, 3, 4)), rng.choice(("abc", "abc", "ab-c", "a(b-c)")), rng.random()
        e = None
        if k < .35:
            A, B, C = (s.vec(1 << n) for _ in range(3))
            t = total(f, A, B, C)
            e = {"op": "sc_prove", "A": A, "B": B, "C": C, "f": f, "claim": hx(t if rng.random() < .85 else (t + 1) % P)}
        elif k < .6:
            a, b = rng.randrange(0, 3), rng.randrange(0, 3)
            if a + b == 0:
                a = 1
            v = lambda m: [s.vec(1 << n) for _ in range(m)]
            e = {"op": "sc_batch", "PA": v(a), "PB": v(a), "C": s.vec(1 << n), "SA": v(b), "SB": v(b), "SC": v(b), "f": f, "coeffs": s.vec(a + b)}
            w = ints(e["coeffs"])
            t = sum(w[i] * total(f, e["PA"][i], e["PB"][i], e["C"]) for i in range(a)) + sum(w[a + i] * total(f, e["SA"][i], e["SB"][i], e["SC"][i]) for i in range(b))
            e["claim"] = hx(t % P)
        elif k < .75:
            e = {"op": "pc_prove", "z": s.vec(2 << rng.randrange(0, 4))}
        else:
            n = rng.randrange(0, 4)
            e = {"op": "pb_prove", "zs": [s.vec(2 << n) for _ in range(rng.randrange(1, 4))],
                 "dots": [[s.vec(1 << n) for _ in range(3)] for _ in range(2 * rng.choice((0, 0, 1, 2)))]}
        e["seed"] = s()
        first.append([e])

    SCH = {"sc_prove": bc.POLYS, "sc_batch": bc.POLYS, "sc_verify": bc.POLYS, "pc_prove": bc.PC, "pc_verify": bc.PC, "pb_prove": bc.PB, "pb_verify": bc.PB}
    done = parsed(drv, first, lambda e: SCH[e["op"]])
    second = []
    for (e,) in done:
        if not e.get("ok"):
            second.append([])
            continue
        sch = SCH[e["op"]]
        out = []
        for j in range(5):
            pf = e["pf"] if j == 0 else alter(rng, s, e["pf"], sch)
            if e["op"] == "pc_prove" and any(len(y["claims"]) > 2 for y in pf):
                continue
            seed = e["seed"] if j < 4 else s()
            v = {"proof": bc.emit(sch, pf), "pf": pf, "seed": seed}
            if e["op"] in ("sc_prove", "sc_batch"):
                n = len(e["C"]).bit_length() - 1
                cl = e["claim"] if j != 3 else s()
                v.update({"op": "sc_verify", "claim": cl, "rounds": n if rng.random() < .9 else n + 1, "degree": 3 if rng.random() < .9 else rng.choice((2, 4))})
            elif e["op"] == "pc_prove":
                t = 1
                for x in ints(e["z"]):
                    t = t * x % P
                v.update({"op": "pc_verify", "eval": hx(t) if j != 3 else s(), "len": len(e["z"])})
            else:
                cl = []
                for z in e["zs"]:
                    t = 1
                    for x in ints(z):
                        t = t * x % P
                    cl.append(hx(t))
                dc = [hx(sum(a * b * w for a, b, w in zip(*map(ints, d))) % P) for d in e["dots"]]
                if j == 3:
                    l = rng.choice([x for x in (cl, dc) if x])
                    l[rng.randrange(len(l))] = s()
                v.update({"op": "pb_verify", "claims": cl, "dclaims": dc, "len": len(e["zs"][0])})
            if j == 0 and seed == e["seed"]:
                v["twin"] = 1
            out.append(v)
        second.append(out)
    flat = vt.drive_parallel(drv, [x for x in second if x])
    it = iter(flat)
    return [p + (next(it) if x else []) for p, x in zip(done, second)]


def forged_products(c, drv):
    """a prover that deviates at one point of the batched product argument and is consistent everywhere else (forge.rs)"""
    rng = c.rng
    s = Src(rng)
    nz = lambda: next(v for v in iter(s, None) if v not in ("0", "1"))
    prod = lambda z: hx(__import__("functools").reduce(lambda a, b: a * b % P, ints(z), 1))
    progs = []
    for _ in range(c.n(40, 600)):
        n, np, nd = rng.randrange(0, 4), rng.randrange(1, 4), 2 * rng.choice((0, 1, 1, 2))
        dense = lambda k: [hx(rng.randrange(2, P)) for _ in range(k)] if rng.random() < .8 else s.vec(k)
        e = {"op": "pb_forge", "seed": s(), "zs": [dense(2 << n) for _ in range(np)], "dots": [[dense(1 << n) for _ in range(3)] for _ in range(nd)]}
        e["claims"] = [prod(z) for z in e["zs"]]
        e["dclaims"] = [hx(sum(a * b * w for a, b, w in zip(*map(ints, d))) % P) for d in e["dots"]]
        p = [dict(e, bend=[])]
        for layer in range(n + 1):
            j = rng.randrange(np)
            p.append(dict(e, bend=[{"site": "pb.%d" % layer, "how": "move", "v": nz(), "i": j, "k": np + j}]))
            p.append(dict(e, bend=[{"site": "pb.%d" % layer, "how": rng.choice(("add", "set")), "v": nz(), "i": rng.randrange(2 * np)}]))
        j = rng.randrange(np)                                        # a false claim that the first layer agrees with
        v = nz()
        f = dict(e, bend=[{"site": "pb.0", "how": "mul", "v": v, "i": j + rng.choice((0, np))}])
        f["claims"] = [hx(int(x, 16) * int(v, 16) % P) if i == j else x for i, x in enumerate(e["claims"])]
        p.append(f)
        f = dict(e, bend=[])                                         # false claims with nothing to support them
        f["claims"] = [nz() if i == j else x for i, x in enumerate(e["claims"])]
        p.append(f)
        if nd:
            j = rng.randrange(nd)
            a, b = rng.sample(range(3), 2)
            p.append(dict(e, bend=[{"site": "pb.dots", "how": "move", "v": nz(), "i": nd * a + j, "k": nd * b + j}]))
            p.append(dict(e, bend=[{"site": "pb.dots", "how": "add", "v": nz(), "i": rng.randrange(3 * nd)}]))
            f = dict(e, bend=[])
            f["dclaims"] = [nz() if i == j else x for i, x in enumerate(e["dclaims"])]
            p.append(f)
            f = dict(e, bend=[])                                     # the right sum, differently divided
            d = int(nz(), 16)
            k = (j + 1) % nd
            f["dclaims"] = [hx((int(x, 16) + (d if i == j else -d if i == k else 0)) % P) for i, x in enumerate(e["dclaims"])]
            p.append(f)
        progs.append(p)
    done = []
    for p in vt.drive_parallel(drv, progs):
        q = []
        for f in p:
            if f.get("ok"):
                q.append({"op": "pb_verify", "seed": f["seed"], "claims": f["claims"], "dclaims": f["dclaims"], "len": len(f["zs"][0]), "proof": f["proof"], "pf": bc.parse(bc.PB, f["proof"])})
        done.append(q)
    return vt.drive_parallel(drv, [q for q in done if q])


def trim(p):
    return [{k: v for k, v in e.items() if k != "proof"} for e in p]


def c12(c):
    c.model("MC_Sumcheck", "products of two tables of 2 variables over P=3", constants={"P": 3, "BIG": False, "MaxVars": c.n(1, 2), "Degree": 2, "Vals": {0, 1, 2}},
            invariants=["Complete", "Sound", "Layer"], deadlock=False)
    c.model("MC_Sumcheck", "products of three tables of 1 variable over P=5", constants={"P": 5, "BIG": False, "MaxVars": 1, "Degree": 3, "Vals": c.n({0, 1}, {0, 1, 4})},
            invariants=["Complete", "Sound", "Layer"], deadlock=False)
    drv, bt = vt.build("full", "drv_poly")
    c.cov["build_s"] = round(bt, 1)
    done = [trim(p) for p in sum_programs(c, drv)]
    made = [trim(p) for p in forged_products(c, drv)]
    c.cov["deviating provers"] = {"proofs": sum(map(len, made)), "accepted": sum(e["ok"] for p in made for e in p), "in step": sum(p[0]["ok"] for p in made)}
    vt.log(c.cov["deviating provers"])
    done += made
    ok = c.trace("TraceSum", done, "sum-check and product circuits in the clear", constants=SC)
    t = {}
    for p in done:
        for e in p:
            k = "%s:%s" % (e["op"], e.get("ok"))
            t[k] = t.get(k, 0) + 1
    c.cov["answers"] = t
    vt.log(t)
    if ok:
        def corrupt(ps):
            e = [e for e in ps[0] if e["op"] == "sc_verify" and e["ok"]][0]
            e["e"] = hx((int(e["e"], 16) + 1) % P)
        c.nonvacuous("TraceSum", [p for p in done if any(e["op"] == "sc_verify" and e["ok"] for e in p)][:1], corrupt, "sum-check", constants=SC)
    import p_proto
    p_proto.committed_sumcheck(c)
    c.sample({k: v for k, v in done[0][0].items() if k not in ("log",)})
