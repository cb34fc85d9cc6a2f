"""C01/C02: the proof system's scalar type against spec/ScalarMachine.tla."""
import vt
from vt import hx

P = 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f
R = 1 << 256


def models(c):
    c.model("MC_Scalar", "P=5, 2 registers, all operations", constants={"BIG": False, "P": 5, "Reg": {0, 1}},
            invariants=["TypeOK", "Laws", "BatchLaw", "WideLaw"])
    if c.thorough:
        c.model("MC_Scalar", "P=13, 2 registers", constants={"BIG": False, "P": 13, "Reg": {0, 1}},
                invariants=["TypeOK", "Laws", "BatchLaw", "WideLaw"])
        c.model("MC_Scalar", "P=7, 3 registers", constants={"BIG": False, "P": 7, "Reg": {0, 1, 2}},
                invariants=["TypeOK", "Laws", "BatchLaw", "WideLaw"])


def load(d, v, rng):
    return {"op": "raw", "d": d, "v": hx(v)} if rng.random() < .5 else {"op": "bytes", "d": d, "v": hx(v)}


def arith(rng, n):
    """programs of arithmetic: operand pairs chosen so that operands, results or their Montgomery
    representations lie on boundaries, followed by random chains"""
    pool = vt.field_pool(rng, P)
    progs = []
    while len(progs) < n:
        ev = []
        a, t = (rng.choice(pool) if rng.random() < .85 else rng.choice((0, 1, 2, P - 1, P - 2)) for _ in range(2))
        k = rng.random()
        if k < .25: b = (t - a) % P
        elif k < .5: b = (a - t) % P
        elif k < .75 and a: b = t * pow(a, -1, P) % P
        else: b = rng.choice(pool)
        ev += [load(0, a, rng), load(1, b, rng)]
        for op in ("add", "sub", "mul"):
            ev.append({"op": op, "d": 2, "a": 0, "b": 1, "form": rng.randrange(7)})
        ev.append({"op": "sub", "d": 3, "a": 1, "b": 0, "form": rng.randrange(7)})
        for op in ("neg", "double", "square"):
            ev.append({"op": op, "d": 4, "a": rng.choice((0, 1, 2, 3)), "form": rng.randrange(3)})
        ev.append({"op": "eq", "a": rng.choice((0, 2)), "b": rng.choice((0, 1, 2, 3, 4))})
        if rng.random() < .3:
            ev.append({"op": "invert", "d": 5, "a": rng.randrange(5)})
            ev.append({"op": "mul", "d": 6, "a": 5, "b": rng.randrange(5)})
        if rng.random() < .12:
            e = rng.choice([0, 1, 2, 3, P - 1, P - 2, P, R - 1, (P + 1) // 4, rng.getrandbits(256), 1 << rng.randrange(256)] + pool[:6])
            ev.append({"op": rng.choice(("pow", "powv")), "d": 5, "a": rng.randrange(5), "e": hx(e)})
        if rng.random() < .25:
            # batch inversion of registers known to be nonzero
            rs = [0, 1, 2, 3, 4, 5]
            ld = [{"op": "raw", "d": i, "v": hx(v or 1)} for i, v in zip(rs, vt.related(rng, P, pool, 6))]
            if rng.random() < .3:
                rng.shuffle(rs)
            ev += ld + [{"op": "batch", "rs": rs[:rng.randrange(0, 7)]}]
        if rng.random() < .2:
            ev += [{"op": "raw", "d": i, "v": hx(v)} for i, v in enumerate(vt.related(rng, P, pool, 8))]
        for _ in range(rng.randrange(0, 6)):
            op = rng.choice(("add", "sub", "mul", "neg", "double", "square", "select", "sum", "product", "eq", "zero", "one"))
            r = {"op": op, "d": rng.randrange(8), "form": rng.randrange(2)}
            if op in ("sum", "product"): r["rs"] = [rng.randrange(8) for _ in range(rng.randrange(0, 6))]
            elif op not in ("zero", "one"): r["a"] = rng.randrange(8)
            if op in ("add", "sub", "mul", "select", "eq"): r["b"] = rng.randrange(8)
            if op == "select": r["bit"] = rng.randrange(2)
            ev.append(r)
        progs.append(ev)
    return progs


def encodings(rng, n):
    """programs of conversions: canonical and non-canonical byte strings, wide strings, 64-bit ints"""
    pool = vt.field_pool(rng, P)
    progs = []
    edge = [P - 1, P, P + 1, P + 2, R - 1, R - 2, 0, 1, P ^ (1 << 64), P + (1 << 20), (1 << 255)] + \
           [P + d for d in range(1, 977 + (1 << 5), 97)] + [P ^ (1 << k) for k in range(0, 256, 7)] + \
           [(R - 1) ^ (1 << k) for k in range(0, 256, 5)] + [P - (1 << k) for k in range(0, 250, 9)]
    while len(progs) < n:
        ev = []
        for _ in range(6):
            k = rng.random()
            if k < .45:
                v = rng.choice(edge) if rng.random() < .6 else (rng.choice(pool) if rng.random() < .6 else rng.randrange(R))
                ev.append({"op": rng.choice(("bytes", "bytes", "deser", "raw")), "d": rng.randrange(8), "v": hx(v)})
            elif k < .75:
                lo = rng.choice(pool + edge) if rng.random() < .7 else rng.randrange(R)
                hi = rng.choice(pool + edge) if rng.random() < .7 else rng.randrange(R)
                v = hi * R + lo
                j = rng.random()
                if j < .15: v = rng.choice([R * R - 1, R * R - 2, P * P, P * (R - 1), R, R - 1, P * R, P * R + P - 1, (R - 1) * R])
                elif j < .3: v = P * rng.randrange(R) + rng.choice([0, 1, P - 1])
                ev.append({"op": rng.choice(("wide", "wide", "random")), "d": rng.randrange(8), "v": hx(v)})
            elif k < .85:
                ev.append({"op": "u64", "d": rng.randrange(8), "v": hx(rng.choice([0, 1, 2, (1 << 64) - 1, (1 << 63), (1 << 32), rng.getrandbits(64), rng.getrandbits(10)]))})
            else:
                ev.append({"op": "eq", "a": rng.randrange(8), "b": rng.randrange(8)})
        progs.append(ev)
    return progs


CONST = {"BIG": True, "P": hx(P), "Reg": set(range(8))}


def run(c, gen, n):
    models(c)
    drv, bt = vt.build("scope", "drv_scalar")
    c.cov["build_s"] = round(bt, 1)
    done = vt.drive_parallel(drv, gen(c.rng, n))
    ok = c.trace("TraceScalar", done, "recorded programs", constants=CONST)
    for d in done[:3]:
        c.sample(d[-1])
    if ok:
        def corrupt(ps):
            ev = [e for e in ps[0] if "out" in e][-1]
            ev["out"] = hx(int(ev["out"], 16) ^ 1)
        c.nonvacuous("TraceScalar", done[:1], corrupt, "recorded programs", constants=CONST)


def c01(c):
    run(c, arith, c.n(6000, 120000))


def c02(c):
    run(c, encodings, c.n(9000, 160000))
