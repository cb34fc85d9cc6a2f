"""C06 and C19-C23: the circuits, as constraint systems, against spec/TraceCircuit.tla (full size) and
spec/MC_Circuit.tla (every assignment of small likenesses)."""
import gc, itertools, json, multiprocessing, os, random, tempfile, time
import circom, circuits, deviate, vt
from circom import CircomError, Unsupported, SECP_P as P
from circuits import Q
from vt import hx, ToolError

CONST = {"BIG": True, "P": hx(P), "Q": hx(Q), "FullRounds": 8, "PartialRounds": 56, "Bits": 256}
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
     0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)
BETA = 0x7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee
O = (0, 0)


# ------------------------------------------------------------------ operands (the verdicts are TLC's)
def add(A, B, p=P):
    if A == O: return B
    if B == O: return A
    if A[0] == B[0]:
        if (A[1] + B[1]) % p == 0: return O
        l = 3 * A[0] * A[0] * pow(2 * A[1], -1, p) % p
    else:
        l = (B[1] - A[1]) * pow(B[0] - A[0], -1, p) % p
    x = (l * l - A[0] - B[0]) % p
    return x, (l * (A[0] - x) - A[1]) % p


def mul(k, A, p=P):
    R = O
    while k:
        if k & 1: R = add(R, A, p)
        A = add(A, A, p)
        k >>= 1
    return R


def neg(A, p=P):
    return A[0], -A[1] % p


def lift(x):
    y2 = (x ** 3 + 7) % P
    y = pow(y2, (P + 1) // 4, P)
    return (x % P, y) if y * y % P == y2 else None


def by_y(y):
    """the points of ordinate y, if any"""
    a = (y * y - 7) % P
    r = pow(a, (P + 2) // 9, P)
    return [(r * b % P, y) for b in (1, BETA, BETA * BETA % P)] if pow(r, 3, P) == a else []


def specials(rng, n):
    """finite points with a coordinate on a boundary, small multiples, random ones"""
    out = [mul(k, G) for k in range(1, 6)] + [neg(G), mul(Q // 2, G)]
    x = 1
    small = []
    while len(small) < 4:
        if lift(x): small += [lift(x), neg(lift(x))]
        x += 1
    y = 1
    while len(small) < 8:
        small += by_y(y)[:1]
        y += 1
    for x in (P - 1, P - 2, P - 3, 2 ** 128, 2 ** 128 - 1, 2 ** 255, 2 ** 32 + 976, 2 ** 32 + 977, 2 ** 32 + 978, 2 ** 256 - P - 1 - 0):
        while not lift(x % P):
            x -= 1
        small.append(lift(x % P))
    out += small
    while len(out) < n:
        out.append(mul(rng.randrange(1, Q), G))
    return out[:max(n, len(small) + 7)]


def pairs(rng, n):
    pts = specials(rng, 30)
    out = [(O, O)] + [(O, A) for A in pts[:12]] + [(A, O) for A in pts[:12]]
    for A in pts[:14]:
        out += [(A, A), (A, neg(A)), (A, (A[0] * BETA % P, A[1])), (A, (A[0] * BETA % P, -A[1] % P)),
                (A, add(A, A)), (A, neg(add(A, A))), (neg(A), A)]
    # ordinates that sum or differ by small numbers
    y = 2
    while len(out) < 150:
        y += 1
        A = by_y(y)
        for t in (1, 2, -1, -2, 0):
            B = by_y((t - y) % P)
            if A and B:
                out += [(A[0], B[1]), (B[0], A[0])]
    while len(out) < n:
        A = rng.choice(pts) if rng.random() < .5 else mul(rng.randrange(1, Q), G)
        B = rng.choice(pts)
        out.append((A, B))
    rng.shuffle(out)
    return out[:max(n, 150)]


def scalars(rng, n, below=Q):
    """around the order, the offset, the halves and the carries between them"""
    t = (2 * Q - 2 ** 256) % Q
    M = 2 ** 128
    qlo, qhi, tlo, thi = Q % M, Q >> 128, t % M, t >> 128
    los = [0, 1, M - 1, M - tlo, M - tlo - 1, M - tlo + 1, (qlo - tlo) % M, (qlo - tlo - 1) % M, (qlo - tlo + 1) % M, qlo, qlo - 1, tlo,
           M // 2, (qlo + M - tlo) % M, 0x8aa24632a16ebf88805b42e65f937d7e, P % M, P % M - 1]
    his = [0, 1, 2, 3, M - 1, M - 2, M - 3, M // 2, qhi, qhi - 1, (qhi - thi) % M, (qhi - thi - 1) % M, (qhi - thi + 1) % M, thi]
    out = [0, 1, 2, 3, 4, 5, 7, 8, Q - 1, Q - 2, Q - 3, Q - 4, Q // 2, Q // 2 + 1, Q - t, Q - t - 1, Q - t + 1, t, M, M - 1, M + 1, 2 ** 255, 2 ** 255 - 1]
    # what makes the shifted scalar small, or one bit
    out += [(k - t) % Q for k in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 2 ** 255, 2 ** 254, Q - 1, Q - 2)]
    grid = [h * M + lo for h in his for lo in los]
    rng.shuffle(grid)
    out += grid
    out += [(1 << k) for k in range(0, 256, 5)] + [(1 << k) - 1 for k in range(1, 256, 7)]
    out = [x for x in dict.fromkeys(out) if x < below]
    head, tail = out[:39], out[39:]
    while len(head) < n:
        head.append(tail.pop(0) if tail and rng.random() < .8 else rng.randrange(below))
    return head[:n]


def signature(rng):
    d = rng.choice((1, 2, Q - 1, rng.randrange(1, Q), rng.randrange(1, Q), rng.randrange(1, 2 ** 64)))
    while True:
        k = rng.choice((1, 2, Q // 2 + 1, rng.randrange(1, Q), rng.randrange(1, Q), rng.randrange(1, Q)))
        m = rng.choice((0, 1, Q, Q - 1, 2 ** 256 - 1, rng.getrandbits(256), rng.getrandbits(256), rng.getrandbits(256)))
        R = mul(k, G)
        r = R[0] % Q
        s = pow(k, -1, Q) * (m + r * d) % Q
        if r and s:
            break
    ri = pow(r, -1, Q)
    if rng.random() < .3:                      # the low form of the same signature
        s, R, k = Q - s, neg(R), Q - k
    T, U = mul(ri, R), mul(-ri * m % Q, G)
    return dict(s=s, Tx=T[0], Ty=T[1], Ux=U[0], Uy=U[1]), dict(k=k, d=d, m=m, s=s, gx=G[0], gy=G[1])


def to_key(rng, X, pool):
    """circuit inputs whose key is X"""
    T = mul(rng.randrange(1, Q), G)
    s = rng.choice(pool)
    U = add(X, neg(mul(s, T)))
    return dict(s=s, Tx=T[0], Ty=T[1], Ux=U[0], Uy=U[1])


def eff_inputs(rng, n):
    sc, pts = scalars(rng, 90), specials(rng, 26)
    out = []
    while len(out) < n:
        k = rng.random()
        T = rng.choice(pts)
        s = rng.choice(sc)
        sT = mul(s, T)
        if k < .4:
            out.append(to_key(rng, rng.choice(pts[5:] + [O]), sc))
            continue
        U = rng.choice((O, sT, neg(sT), T, neg(T), rng.choice(pts), (sT[0] * BETA % P, sT[1]), (sT[0] * BETA % P, -sT[1] % P)))
        if U == (0, 0) or lift(U[0]):
            out.append(dict(s=s, Tx=T[0], Ty=T[1], Ux=U[0], Uy=U[1]))
    return out


# ------------------------------------------------------------------ full size
def hexes(v):
    if isinstance(v, dict):
        return {k: hexes(x) for k, x in v.items()}
    return [hexes(x) for x in v] if isinstance(v, (list, tuple)) else hx(v)


MADE, PROGRAMS = {}, []


def make(template, args=(), main=None):
    key = (template, tuple(args), main)
    if key not in MADE:
        gc.disable()
        f = os.path.join(circuits.CIRC, main or circuits.FILES[template])
        pr = None
        if not main:                           # a program that has this template from this very file
            pr = next((x for x in PROGRAMS if x.origin.get(template) == f), None)
        if pr is None:
            pr = circom.Program(f, circuits.LIB)
            PROGRAMS.append(pr)
        MADE[key] = pr.build_main(named=False) if main else pr.build(template, list(args), named=False)
    return MADE[key]


def ports(R, inputs):
    """inputs given under the names of the property, in the circuit's own"""
    return {n: inputs[n] for n in R.main.ins}


def one_job(job):
    """(events, facts) of one circuit over a list of inputs"""
    op, template, args, inputs, seed, opt = job
    rng = random.Random(seed)
    ev, facts = [], {"op": op, "assignments": 0, "other_assignments": 0, "choices_met": 0}
    try:
        R = make(template, args, opt.get("main"))
        if opt.get("main"):
            order = [n for n in R.main.ins if n in R.public]
            ev.append({"op": "main", "circuit": True, "public": list(R.public), "order": order})
    except CircomError as e:
        return [{"op": "main" if opt.get("main") else "circuit", "circuit": False, "template": template, "why": str(e), "public": [], "order": []}], facts
    if not inputs:
        return ev, facts
    first = inputs[0][0]
    if set(R.main.ins) != set(first) or any(circom.shape(R.main.sig[n]) != shape_of(first[n]) for n in first):
        raise ToolError("%s has other inputs than the specification speaks of" % template)
    try:
        X = deviate.Explorer(R, rng) if opt.get("explore", True) else None
        for k, (f, more) in enumerate(inputs):
            t = {"op": op, "in": hexes(f)}
            t.update(hexes(more or {}))
            try:
                if X and k < opt.get("explore_first", len(inputs)):
                    w, bad, others, met = X.explore(f, opt.get("limit", 60))
                else:
                    w = R.witness(f)
                    bad, others, met = R.failing(w), [], 0
            except CircomError as e:          # its computation breaks off
                ev.append(dict(t, own=True, sat=False, why=str(e), out={}))
                continue
            facts["assignments"] += 1
            facts["other_assignments"] += len(others)
            facts["choices_met"] += met
            ev.append(dict(t, own=True, sat=bad is None, out=hexes(R.outputs(w))))
            seen = set()
            for i, v in others:
                o = json.dumps(hexes(R.outputs(v)))
                if o not in seen and len(seen) < 12:
                    seen.add(o)
                    ev.append(dict(t, own=False, sat=True, at=i, out=json.loads(o)))
        if X:
            facts["wires"], facts["constraints"] = R.nsig, len(R.cons)
            facts["shapes"] = [[k, n] for k, n in X.shapes().items()]
    except Unsupported as e:
        raise ToolError("outside the interpreted part of the language: %s" % e)
    return ev, facts


def shape_of(x):
    return [len(x)] + shape_of(x[0]) if isinstance(x, (list, tuple)) else []


def safe(jobs):
    out = []
    for job in jobs:
        try:
            out.append(one_job(job))
        except (ToolError, Unsupported, RecursionError) as e:
            out.append("%s: %s" % (job[1], e))
    return out


def conform(c, jobs, what, par=8, split=40):
    """jobs: (op, template, args, [(inputs, facts)], options)"""
    parts, groups = [], {}
    for op, t, args, ins, opt in jobs:
        k = opt.get("split", split)
        chunks = [ins[i:i + k] for i in range(0, len(ins), k)] or [[]]
        for ch in chunks:
            part = (op, t, args, ch, c.rng.random(), opt)
            if "group" in opt:
                groups.setdefault(opt["group"], []).append(part)
            else:
                parts.append([part])
    parts = list(groups.values()) + parts
    t0 = time.time()
    with multiprocessing.get_context("fork").Pool(min(par, len(parts)), maxtasksperchild=1 if par < 8 else None) as pool:
        done = [d for ds in pool.map(safe, parts, chunksize=1) for d in ds]
    errs = [d for d in done if isinstance(d, str)]
    progs = [d[0] for d in done if not isinstance(d, str) and d[0]]
    c.cov.setdefault("circuits", [])
    for d in done:
        if not isinstance(d, str):
            f = dict(d[1])
            f.pop("shapes", None)
            c.cov["circuits"].append(f)
            for k in ("assignments", "other_assignments", "choices_met"):
                c.add("circuit_" + k, f[k])
    vt.log("built and solved %d parts in %.1fs" % (len(parts), time.time() - t0))
    # one program per few events, so that TLC works in parallel
    k = 6
    ps = [p[i:i + k] for p in progs for i in range(0, len(p), k)]
    ok = c.trace("TraceCircuit", ps, what, constants=CONST, key=lambda p, i: "%s %s" % (p[i]["op"], "own" if p[i].get("own") else p[i].get("why", "other"))) if ps else True
    if ps and ok:
        for p in ps[:3]:
            c.sample({k: v for k, v in p[-1].items() if k != "siblings"} if len(str(p[-1])) < 1500 else {"op": p[-1]["op"], "sat": p[-1].get("sat")})
    if ok and errs:
        raise ToolError("; ".join(errs[:3]))
    return ok, ps


def broken(c, ps, what):
    """the specification refuses a wrong output"""
    def corrupt(q):
        for e in q[0]:
            if e.get("out") and e.get("sat"):
                n = sorted(e["out"])[0]
                v = e["out"][n]
                if isinstance(v, list):
                    v[0] = "1" if v[0] == "0" else "0"
                else:
                    e["out"][n] = hx((int(v, 16) + 1) % P)
                return
    cand = [p for p in ps if any(e.get("out") and e.get("sat") for e in p)]
    if cand:
        c.nonvacuous("TraceCircuit", cand[:1], corrupt, what, constants=CONST)


# ------------------------------------------------------------------ small likenesses
def small_points(p, b):
    sq = {}
    for y in range(p):
        sq.setdefault(y * y % p, []).append(y)
    return [(x, y) for x in range(p) for y in sq.get((x ** 3 + b) % p, ())]


def h_small(R, ins):
    a, b = ins[-2:]
    return [R.add(R.add(R.scale(a, 3), R.scale(b, 5)), R.add(R.mul(a, b), 1))]


def addr_small(R, ins):
    s = 0
    for k, v in enumerate(ins, 1):
        s = R.add(s, R.scale(v, k * k + 3))
    return [s]


STAND = {"Poseidon": h_small, "PubkeyToAddress": addr_small}


def small(c, kind, template, args, n, p, q, b, inputs, what, stand=False, budget=240, **more):
    """all assignments of the likeness; returns False when it has a wrong one"""
    try:
        R = circuits.load(template, args, p, circuits.scaling(n, p, q), STAND if stand else None)
        hon = []
        for f in inputs:
            try:
                w = R.witness(f)
            except CircomError:
                w = [1] + [0] * (R.nsig - 1)
            hon.append({"in": f, "w": w[1:]})
    except Unsupported as e:
        # written in a way that has no smaller likeness: the full-size runs have to do
        vt.log("no small likeness of %s: %s" % (template, e))
        c.cov.setdefault("not_scaled", []).append("%s: %s" % (template, e))
        return True
    except CircomError as e:
        vt.log("no small likeness of %s: %s" % (template, e))
        c.cov.setdefault("not_scaled", []).append("%s: %s" % (template, e))
        return True
    tmp = tempfile.NamedTemporaryFile("w", suffix=".json", delete=False)
    tmp.close()
    try:
        circuits.export(R, tmp.name, hon, kind=kind, n=n, q=q, b=b, gen=list(small_points(p, b)[0]), **more)
        kw = dict(invariants=("Covered", "OnlyRight", "Witness"), env={"CIRCUIT": tmp.name}, deadlock=False)
        try:
            r = vt.tlc("MC_Circuit", timeout=budget, **kw)
        except ToolError:
            r = vt.tlc("MC_Circuit", timeout=120, extra=("-simulate", "num=3000", "-depth", "100000"), **kw)
            if r.code == 0:
                raise ToolError("%s: too many assignments" % what)
    finally:
        os.unlink(tmp.name)
    if r.code == 12:
        bad = [i for i in ("Covered", "OnlyRight", "Witness") if "Invariant %s is violated" % i in r.out]
        vt.log("model MC_Circuit %s: %s violated" % (what, bad))
        c.violation("small %s %s" % (kind, bad[0] if bad else "?"), {"what": what, "p": p, "invariant": bad, "state": r.last_state()[-1500:]},
                    {"circuit": template, "args": list(args), "p": p, "n": n, "q": q, "b": b, "state": r.last_state()})
        return False
    if r.code:
        raise ToolError("MC_Circuit (%s): TLC status %d\n%s" % (what, r.code, r.out[-1800:]))
    c.cov["states"] += r.distinct
    c.cov["transitions"] += r.generated
    c.cov.setdefault("models", []).append({"module": "MC_Circuit", "what": what, "distinct_states": r.distinct, "states_generated": r.generated,
                                           "wires": R.nsig, "constraints": len(R.cons), "wall_s": round(r.wall, 1)})
    vt.log("model %-18s %-46s %8d states %6.1fs" % ("MC_Circuit", what, r.distinct, r.wall))
    return True


SMALL6 = (6, 43, 31, 7)
SMALL8 = (8, 241, 211, 13)
SMALL10 = (10, 1009, 967, 11)
SMALL10B = (10, 1009, 991, 22)


POS = {k: v for k, v in CONST.items() if k != "Q"}


def c06(c):
    rng = c.rng
    pool = vt.field_pool(rng, P, 60)
    vals = lambda: [rng.choice(pool) if rng.random() < .8 else rng.randrange(P) for _ in range(2)]
    drv, bt = vt.build("full", "drv_io")
    c.cov["build_s"] = round(bt, 1)
    progs = []
    for _ in range(c.n(120, 2000)):
        ev = []
        for _ in range(4):
            a, b = vals()
            ev.append({"op": "hash", "a": hx(a), "b": hx(b)})
            a, b = vals()
            ev.append({"op": "poseidon", "h": (a.to_bytes(32, "little") + b.to_bytes(32, "little")).hex()})
        progs.append(ev)
    for _ in range(c.n(40, 400)):
        full, part = rng.choice((2, 4, 6, 8)), rng.randrange(0, 9)
        el = lambda n: [hx(rng.choice(pool)) for _ in range(n)]
        progs.append([{"op": "generic", "full": full, "partial": part, "keys": el(3 * (full + part)), "mds": el(9), "ins": el(2 * rng.randrange(1, 4))}])
    done = vt.drive_parallel(drv, progs)
    for p in done:
        for e in p:
            e["op"] = "bytes" if e["op"] == "poseidon" else e["op"]
    if not c.trace("TracePoseidon", done, "hashes of the Rust crate and through its byte interface", constants=POS):
        return
    def corrupt(ps):
        e = [e for e in ps[0] if "out" in e][-1]
        e["out"] = hx(int(e["out"], 16) ^ 1)
    c.nonvacuous("TracePoseidon", done[:1], corrupt, "hashes", constants=POS)
    c.sample(done[0][0])
    ins = [({"inputs": vals()}, None) for _ in range(c.n(240, 4000))]
    ok, tr = conform(c, [("hash", "Poseidon", (), ins, {})], "hashes of the circuit")
    if not ok:
        return
    broken(c, tr, "hashes of the circuit")
    c.model("MC_Poseidon", "the permutation over P=13, every state and round", deadlock=False,
            constants={"BIG": False, "P": 13, "FullRounds": 4, "PartialRounds": 3, "Bits": 4}, invariants=["Params", "OneToOne"])


def c19(c):
    n = c.n(500, 6000)
    ps = pairs(c.rng, n)
    four = lambda A, B: ({"xP": A[0], "yP": A[1], "xQ": B[0], "yQ": B[1]}, None)
    inc = [z for z in ps if z[0] != O and z[1] != O and z[0][0] != z[1][0]]
    dbl = [({"xP": A[0], "yP": A[1]}, None) for A in specials(c.rng, c.n(80, 800))]
    ok, tr = conform(c, [("add", "Secp256k1AddComplete", (), [four(*z) for z in ps], {}),
                         ("inc", "Secp256k1AddIncomplete", (), [four(*z) for z in inc], {}),
                         ("dbl", "Secp256k1Double", (), dbl, {})], "additions and doublings of the full-size circuits")
    if not ok:
        return
    broken(c, tr, "additions")
    for prm in [SMALL6] + ([(8, 241, 211, 13)] if c.thorough else []):
        nn, p, q, b = prm
        F = small_points(p, b)
        A = F if len(F) < 60 else c.rng.sample(F, 14)
        more = {} if A is F else {"points": [list(x) for x in A]}
        q4 = lambda S: [dict(xP=a[0], yP=a[1], xQ=d[0], yQ=d[1]) for a, d in S]
        small(c, "add", "Secp256k1AddComplete", (), *prm, q4([(a, d) for a in A + [O] for d in F + [O]]), "complete addition over F_%d, %d x %d points" % (p, len(A) + 1, len(F) + 1), **more)
        small(c, "inc", "Secp256k1AddIncomplete", (), *prm, q4([(a, d) for a in A for d in F if a[0] != d[0]]), "incomplete addition over F_%d" % p, **more)
    for prm in (SMALL6, SMALL8) + ((SMALL10, SMALL10B) if c.thorough else ()):
        small(c, "dbl", "Secp256k1Double", (), *prm, [dict(xP=a[0], yP=a[1]) for a in small_points(prm[1], prm[3])], "doubling over F_%d" % prm[1])


def c20(c):
    n = c.n(200, 3000)
    pts = specials(c.rng, 24)
    muls = [({"scalar": s, "xP": A[0], "yP": A[1]}, None) for s, A in ((s, c.rng.choice(pts)) for s in scalars(c.rng, n))]
    ks = [({"s": s}, None) for s in scalars(c.rng, c.n(500, 8000), P) + [P - 1, P - 2, Q, Q + 1, 0, 1, 2 ** 32 + 976]]
    ok, tr = conform(c, [("mul", "Secp256k1Mul", (), muls, {"split": 12}), ("k", "K", (), ks, {})], "multiples and shifted scalars of the full-size circuits")
    if not ok:
        return
    broken(c, tr, "multiples")
    for prm in (SMALL8, SMALL10, SMALL10B):
        small(c, "k", "K", (), *prm, [dict(s=s) for s in range(prm[1])], "shifted scalars over F_%d, order %d" % (prm[1], prm[2]))
    for prm, npts in ((SMALL8, c.n(1, 6)),) + (((SMALL10, 1), (SMALL10B, 1)) if c.thorough else ()):
        A = c.rng.sample(small_points(prm[1], prm[3]), npts)
        S = list(range(prm[2])) if prm[0] == 8 or c.thorough else None
        small(c, "mul", "Secp256k1Mul", (), *prm, [dict(scalar=s, xP=a[0], yP=a[1]) for s in S for a in A],
              "multiples over F_%d, order %d, all scalars, %d points" % (prm[1], prm[2], npts), budget=800, points=[list(x) for x in A])


def some_eff(c, prm, ns, nu):
    """few scalars, one T, few U such that all cases of the last addition occur"""
    n, p, q, b = prm
    F = small_points(p, b)
    T = c.rng.choice(F)
    S = c.rng.sample(range(5, q - 5), ns - 1) + [c.rng.choice((0, 1, q - 1, q - 2))] * c.thorough
    U = [O, T, neg(T, p)]
    for s in S[-2:]:
        sT = mul(s, T, p)
        U += [sT, neg(sT, p), add(neg(sT, p), T, p)]
    U = list(dict.fromkeys(U))[:nu] + c.rng.sample(F, max(0, nu - len(U)))
    U = list(dict.fromkeys(U))
    return S, T, U, [dict(s=s, Tx=T[0], Ty=T[1], Ux=u[0], Uy=u[1]) for s in S for u in U]


def c21(c):
    n = c.n(140, 2000)
    ins = [signature(c.rng) for _ in range(n)] + [(f, None) for f in eff_inputs(c.rng, n)]
    ok, tr = conform(c, [("eff", "EfficientECDSA", (), ins, {"split": 12})], "public keys recovered by the full-size circuit")
    if not ok:
        return
    broken(c, tr, "keys")
    for prm, ns, nu in ((SMALL8, c.n(12, 40), c.n(16, 30)),) + (((SMALL10, 12, 10),) if c.thorough else ()):
        S, T, U, ins = some_eff(c, prm, ns, nu)
        small(c, "eff", "EfficientECDSA", (), *prm, ins, "recovered keys over F_%d, %d scalars, %d points U" % (prm[1], len(S), len(U)),
              budget=800, points=[list(T)], scalars=S, us=[list(u) for u in U])


# ------------------------------------------------------------------ trees
class Hasher:
    """root of a path, for making operands: through the hash circuit itself"""
    def __init__(self):
        self.R = make("Poseidon")

    def __call__(self, a, b):
        return self.R.outputs(self.R.witness({"inputs": [a, b]}))["out"]

    def root(self, leaf, path, sib):
        for d, s in zip(path, sib):
            leaf = self(leaf, s) if d == 0 else self(s, leaf)
        return leaf


def paths(rng, H, leaf, depth, sib=None):
    pool = [0, 1, 2, P - 1, rng.randrange(P), rng.randrange(P)]
    path = [rng.randrange(2) for _ in range(depth)]
    sib = sib or [rng.choice(pool + [leaf]) for _ in range(depth)]
    return path, sib


def c22(c):
    rng = c.rng
    try:
        H = Hasher()
    except CircomError:
        H = None
    trees = []
    for depth in (1, 2, 3, 5, 20):
        ins = []
        for _ in range(c.n(14, 150)):
            leaf = rng.choice((0, 1, P - 1, rng.randrange(P), rng.randrange(P)))
            path, sib = paths(rng, H, leaf, depth)
            if rng.random() < .35:
                path[rng.randrange(depth)] = rng.choice((2, P - 1, 3, rng.randrange(2, P), (P + 1) // 2))
            ins.append(({"leaf": leaf, "pathIndices": path, "siblings": sib}, None))
        trees.append(("tree", "MerkleTreeInclusionProof", (depth,), ins, {"split": 10}))

    low = [X for X in specials(rng, 26) if min(X) < 2 ** 256 - P]
    sc = scalars(rng, 60)

    def members(depth, n, leaf_of, aliases=False):
        out = []
        for X in low[:3] * aliases:
            # the address of other 256-bit numbers that are the same coordinates in the field
            f = to_key(rng, X, sc)
            path, sib = paths(rng, H, 0, depth)
            Y = tuple(v + P if v < 2 ** 256 - P else v for v in X)
            out.append((dict(f, root=H.root(leaf_of(Y), path, sib) if H else 0, pathIndices=path, siblings=sib), None))
        for i in range(n):
            f, more = signature(rng) if rng.random() < .5 else (eff_inputs(rng, 1)[0], None)
            T, U = (f["Tx"], f["Ty"]), (f["Ux"], f["Uy"])
            X = add(mul(f["s"], T), U)
            leaf = leaf_of(X) if H else 0
            path, sib = paths(rng, H, leaf, depth)
            root = H.root(leaf, path, sib) if H else 0
            k = i % 8
            g = dict(f)
            if k == 3: root = (root + 1) % P
            if k == 4: path[rng.randrange(depth)] ^= 1
            if k == 5: sib[rng.randrange(depth)] = (sib[rng.randrange(depth)] + 1) % P
            if k == 6: g["s"] = (g["s"] + 1) % Q; more = None
            if k == 7: path[rng.randrange(depth)] = rng.choice((2, P - 1, 5))
            if k == 2: root = leaf
            out.append((dict(g, root=root, pathIndices=path, siblings=sib), more))
        return out
    pk = lambda X: H(*X)
    jobs = trees + [("pkmem", "PubKeyMembership", (d,), members(d, c.n(16, 120), pk), {"split": 8}) for d in (1, 3)] + \
        [("pkmem", "PubKeyMembership", (20,), members(20, c.n(16, 120), pk), {"main": "instances/pubkey_membership.circom", "split": 8})]
    ok, tr = conform(c, jobs, "trees and memberships of the full-size circuits")
    if not ok:
        return
    broken(c, tr, "trees")
    # addresses: the address is what the address circuit says here; C23 decides it
    def address(X):
        pad = "%064x%064x" % X
        return int(keccak(bytes.fromhex(pad))[-20:].hex(), 16)
    ok, tr = conform(c, [("addrmem", "AddrMembership", (2,), members(2, c.n(16, 60), address, True), {"split": 100, "explore_first": 4}),
                     ("addrmem", "AddrMembership", (20,), members(20, c.n(8, 40), address), {"main": "instances/addr_membership.circom", "split": 100, "explore_first": 1})],
                     "address memberships of the full-size circuits", par=3)
    if not ok:
        return
    prm = SMALL8
    for depth in (1, 2):
        p = prm[1]
        vals = [0, 1, 2, p - 1] if depth == 2 else [0, 1, 2, 7, p - 1]
        lv = [0, 1, 5, 100]
        ins = [dict(leaf=x, pathIndices=list(a), siblings=list(s)) for x in lv for a in itertools.product(vals, repeat=depth) for s in itertools.product((0, 1, 9), repeat=depth)]
        small(c, "tree", "MerkleTreeInclusionProof", (depth,), *prm, ins, "trees of depth %d over F_%d, non-binary path bits among them" % (depth, p), stand=True,
              depth=depth, paths=vals, sibs=[0, 1, 9], leaves=lv)
    for kind, t in (("pkmem", "PubKeyMembership"), ("addrmem", "AddrMembership")):
        S, T, U, eff = some_eff(c, prm, c.n(2, 8), c.n(3, 6))
        p = prm[1]
        hs = lambda a, b: (3 * a + 5 * b + a * b + 1) % p

        def leaf_of(X):
            if kind == "pkmem":
                return hs(*X)
            ds = [(X[1] >> k) & 1 for k in range(prm[0])] + [(X[0] >> k) & 1 for k in range(prm[0])]
            return sum(v * (k * k + 3) for k, v in enumerate(ds, 1)) % p
        lows = [X for X in small_points(p, prm[3]) if min(X) < 2 ** prm[0] - p][:2]
        for X in lows:
            U.append(add(X, neg(mul(S[0], T, p), p), p))
        U = list(dict.fromkeys(U))
        eff = [dict(s=s, Tx=T[0], Ty=T[1], Ux=u[0], Uy=u[1]) for s in S for u in U]
        sb = [0, 3] if c.thorough else [0]
        roots = [17, -1] + sorted({hs(leaf_of(tuple(v + p * e for v, e in zip(X, d))), 0) for X in lows for d in ((0, 1), (1, 0), (1, 1))})
        ins = []
        for f in eff:
            X = add(mul(f["s"], (f["Tx"], f["Ty"]), p), (f["Ux"], f["Uy"]), p)
            for a in (0, 1, 2):
                for s in sb:
                    for r in roots:
                        if r == -1:
                            r = hs(s, leaf_of(X)) if a == 1 else hs(leaf_of(X), s)
                            if a == 2: r = hs(s, leaf_of(X))
                        ins.append(dict(f, root=r, pathIndices=[a], siblings=[s]))
        small(c, kind, t, (1,), *prm, ins, "%s of depth 1 over F_%d" % (t, p), stand=True, budget=600, depth=1, paths=[0, 1, 2], sibs=sb,
              roots=roots, scalars=S, points=[list(T)], us=[list(u) for u in U])


# ------------------------------------------------------------------ addresses
def keccak(data):
    """for making operands only"""
    RC, r = [], 1
    for i in range(24):
        v = 0
        for j in range(7):
            if r & 1: v ^= 1 << ((1 << j) - 1)
            r = (r << 1) ^ (0x171 if r >> 7 else 0)
        RC.append(v)
    M = (1 << 64) - 1
    rot = lambda x, n: ((x << n) | (x >> (64 - n))) & M if n else x
    A = [[0] * 5 for _ in range(5)]
    b = bytearray(data) + b"\x01" + bytes(135 - len(data) % 136)
    b[-1] |= 0x80
    for o in range(0, len(b), 136):
        for i in range(17):
            A[i % 5][i // 5] ^= int.from_bytes(b[o + 8 * i:o + 8 * i + 8], "little")
        for rc in RC:
            C = [A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4] for x in range(5)]
            D = [C[x - 1] ^ rot(C[(x + 1) % 5], 1) for x in range(5)]
            A = [[A[x][y] ^ D[x] for y in range(5)] for x in range(5)]
            x, y, cur = 1, 0, A[1][0]
            for t in range(24):
                x, y = y, (2 * x + 3 * y) % 5
                A[x][y], cur = rot(cur, ((t + 1) * (t + 2) // 2) % 64), A[x][y]
            for y in range(5):
                T = [A[x][y] for x in range(5)]
                for x in range(5):
                    A[x][y] = T[x] ^ (~T[(x + 1) % 5] & M & T[(x + 2) % 5])
            A[0][0] ^= rc
    return b"".join(A[i % 5][i // 5].to_bytes(8, "little") for i in range(4))


def c23(c):
    rng = c.rng
    keys = specials(rng, 26)[5:]
    sc = scalars(rng, 60)
    small_x = [X for X in keys if X[0] < 2 ** 256 - P or X[1] < 2 ** 256 - P]
    ins = [(to_key(rng, X, sc), None) for X in small_x] + [signature(rng) for _ in range(c.n(6, 60))] + [(f, None) for f in eff_inputs(rng, c.n(6, 60))]
    bits = lambda v, n: [(v >> k) & 1 for k in range(n)]
    raw = [({"pubkeyBits": bits((X[0] << 256) + X[1], 512)}, None) for X in keys[:c.n(6, 20)]] + \
          [({"pubkeyBits": bits(v, 512)}, None) for v in [0, 2 ** 512 - 1] + [rng.getrandbits(512) for _ in range(c.n(6, 40))]]
    jobs = [("toaddr", "EfficientECDSAToAddr", (), ins, {"split": 1000, "group": 1, "explore_first": 5}),
            ("addr", "PubkeyToAddress", (), raw, {"split": 1000, "group": 1, "explore_first": 1})]
    lens = [64, 135, rng.randrange(1, 64)] + ([0, 1, 32, 63, 65, 100, 127, 128, 134] if c.thorough else [])
    for n in lens:
        msgs = [[0] * (8 * n), [1] * (8 * n)] + [[rng.randrange(2) for _ in range(8 * n)] for _ in range(c.n(4, 20))]
        if n:
            jobs.append(("keccak", "Keccak", (8 * n, 256), [({"in": m}, None) for m in msgs], {"split": 1000, "group": 2 + n % c.n(1, 3), "explore_first": 1}))
    for nb, k in ((64, 4), (32, 8), (86, 3)) if not c.thorough else ((64, 4), (32, 8), (86, 3), (128, 2), (16, 16), (252, 2)):
        fl = []
        for _ in range(c.n(6, 30)):
            # chunks in range, one of them now and then out of range
            ch = [[rng.choice((0, 1, (1 << nb) - 1, rng.getrandbits(nb))) for _ in range(k)] for _ in range(2)]
            for row in ch:
                row[k - 1] %= 1 << (256 - nb * (k - 1))
            if rng.random() < .3:
                ch[rng.randrange(2)][rng.randrange(k)] = rng.choice((1 << nb, P - 1, (1 << nb) + 5))
            fl.append(({"chunkedPubkey": ch}, {"chunk": nb}))
        jobs.append(("flatten", "FlattenPubkey", (nb, k), fl, {}))
    ok, tr = conform(c, jobs, "addresses and digests of the full-size circuits", par=5)
    if not ok:
        return
    broken(c, [p for p in tr if p[0]["op"] == "addr"], "addresses")
    prm = SMALL8
    # the keys with coordinates the field's modulus could be added to
    n, p, q, b = prm
    F = small_points(p, b)
    low = [X for X in F if min(X) < 2 ** n - p][:6]
    T = rng.choice(F)
    S = rng.sample(range(5, q - 5), 3)
    U = list(dict.fromkeys([add(X, neg(mul(s, T, p), p), p) for X in low for s in S] + rng.sample(F, c.n(2, 10))))
    small(c, "toaddr", "EfficientECDSAToAddr", (), *prm, [dict(s=s, Tx=T[0], Ty=T[1], Ux=u[0], Uy=u[1]) for s in S for u in U],
          "addresses over F_%d, %d scalars, %d points U" % (p, len(S), len(U)), stand=True, budget=600, scalars=S, points=[list(T)], us=[list(u) for u in U])
