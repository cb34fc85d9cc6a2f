"""C03..C06: the curve crate and the Poseidon crate against FieldMachine, Group and Poseidon specifications."""
import vt, p_scalar
from vt import hx

P = 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
R = 1 << 256
MOD = {"secp": P, "secq": N, "scalar": P}
ZR = {"secp": -11, "secq": -14, "scalar": -11}


def field_programs(rng, f, n):
    p = MOD[f]
    pool = vt.field_pool(rng, p)
    edge = [p - 1, p, p + 1, p + 2, R - 1, R - 2, 0, 1, (1 << 255)] + [p ^ (1 << k) for k in range(0, 256, 9)] + [(R - 1) ^ (1 << k) for k in range(0, 256, 13)]
    progs = []
    while len(progs) < n:
        ev = []
        a, t = (rng.choice(pool) if rng.random() < .85 else rng.choice((0, 1, 2, p - 1, p - 2)) for _ in range(2))
        k = rng.random()
        b = (t - a) % p if k < .25 else (a - t) % p if k < .5 else t * pow(a, -1, p) % p if k < .75 and a else rng.choice(pool)
        for d, v in ((0, a), (1, b)):
            how = rng.choice(("raw", "bytes", "repr"))
            ev.append({"op": how, "d": d, "v": hx(v), "form": rng.randrange(2)})
        for op in ("add", "sub", "mul"):
            ev.append({"op": op, "d": 2, "a": 0, "b": 1, "form": rng.randrange(7)})
        ev.append({"op": "sub", "d": 3, "a": 1, "b": 0, "form": rng.randrange(7)})
        for op in ("neg", "double"):
            ev.append({"op": op, "d": 4, "a": rng.choice((0, 1, 2, 3)), "form": rng.randrange(3)})
        ev.append({"op": "eq", "a": rng.choice((0, 2)), "b": rng.choice((0, 1, 2, 3, 4))})
        if f != "scalar":
            ev.append({"op": "square", "d": 5, "a": rng.choice((0, 1, 2, 3)), "form": rng.randrange(2)})
            ev.append({"op": "cube", "d": 6, "a": rng.choice((0, 1, 2, 3))})
            if rng.random() < .4:
                ev.append({"op": "sqrt", "d": 7, "a": rng.randrange(7)})
            if rng.random() < .2 and b:
                ev.append({"op": "sqrt_ratio", "d": 6, "a": rng.randrange(7), "b": 1})
            if rng.random() < .3:
                ev.append({"op": "invert", "d": 5, "a": rng.randrange(5), "form": rng.randrange(2)})
                ev.append({"op": "mul", "d": 6, "a": 5, "b": rng.randrange(5)})
            if rng.random() < .12:
                e = rng.choice([0, 1, 2, 3, p - 1, p - 2, p, R - 1, (p + 1) // 4, rng.getrandbits(256), 1 << rng.randrange(256)] + pool[:6])
                ev.append({"op": rng.choice(("pow", "powv")), "d": 5, "a": rng.randrange(5), "e": hx(e), "form": rng.randrange(2)})
            if rng.random() < .06:
                ev.append({"op": "pows", "d": 5, "a": rng.randrange(5), "b": rng.randrange(5)})
            if rng.random() < .2:
                rs = [0, 1, 2, 3, 4, 5]
                ld = [{"op": "raw", "d": i, "v": hx(v or 1)} for i, v in zip(rs, vt.related(rng, p, pool, 6))]
                if rng.random() < .3:
                    rng.shuffle(rs)
                ev += ld + [{"op": "batch", "rs": rs[:rng.randrange(0, 7)]}]
            if rng.random() < .1:
                ev += [{"op": "raw", "d": i, "v": hx(v)} for i, v in enumerate(vt.related(rng, p, pool, 8))]
            if rng.random() < .3:
                ev.append({"op": rng.choice(("sum", "product")), "d": 6, "rs": [rng.randrange(8) for _ in range(rng.randrange(0, 6))], "form": rng.randrange(2)})
        # conversions
        for _ in range(2):
            v = rng.choice(edge) if rng.random() < .5 else rng.choice(pool) if rng.random() < .6 else rng.randrange(R)
            ev.append({"op": rng.choice(("bytes", "repr", "raw")), "d": rng.randrange(8), "v": hx(v), "form": rng.randrange(2)})
        if f != "scalar" and rng.random() < .5:
            lo, hi = rng.choice(pool + edge), rng.choice(pool + edge)
            v = rng.choice([hi * R + lo, hi * R + lo, rng.getrandbits(512), R * R - 1, p * rng.randrange(R)])
            ev.append({"op": rng.choice(("wide", "random")), "d": rng.randrange(8), "v": hx(v)})
        if rng.random() < .2:
            ev.append({"op": "u64", "d": 7, "v": hx(rng.choice([0, 1, 2, (1 << 64) - 1, 1 << 63, 1 << 32, (1 << 32) - 1, rng.getrandbits(64), rng.getrandbits(10)])), "form": rng.randrange(2)})
        if rng.random() < .1:
            v = rng.choice(pool + [p, p + 1, R, R * R, 10 ** 77, 9, 10])
            t = str(v)
            ok = True
            if rng.random() < .25:
                t, ok = rng.choice([("", False), ("0" + t, False), ("-" + t, False), (t + " ", False), (t[:-1] + "a", False)])
                if t == "00": ok = False
            ev.append({"op": "dec", "d": 5, "t": t, "v": hx(v), "valid": ok})
        for op in ("zero", "one", "select"):
            if rng.random() < .1:
                ev.append({"op": op, "d": 3, "a": 0, "b": 1, "bit": rng.randrange(2), "form": rng.randrange(4)})
        if f == "scalar" and rng.random() < .05:
            ev.append({"op": "char"})
        progs.append(ev)
    return progs


def c03(c):
    c.model("MC_Field", "P=5, Z=2", constants={"BIG": False, "P": 5, "Z": 2, "Reg": {0, 1}}, invariants=["TypeOK", "RootLaw", "RatioLaw"])
    c.model("MC_Field", "P=13, Z=2", constants={"BIG": False, "P": 13, "Z": 2, "Reg": {0, 1}}, invariants=["TypeOK", "RootLaw", "RatioLaw"])
    if c.thorough:
        c.model("MC_Field", "P=29, Z=2", constants={"BIG": False, "P": 29, "Z": 2, "Reg": {0, 1}}, invariants=["TypeOK", "RootLaw", "RatioLaw"])
        p_scalar.models(c)
    drv, bt = vt.build("secq", "drv_field")
    c.cov["build_s"] = round(bt, 1)
    n = c.n(1500, 40000)
    for f in ("secp", "secq", "scalar"):
        p = MOD[f]
        const = {"BIG": True, "P": hx(p), "Z": hx(ZR[f] % p), "Reg": set(range(8))}
        done = vt.drive_parallel(drv, field_programs(c.rng, f, n), reset={"f": f})
        ok = c.trace("TraceField", done, "recorded programs over " + f, constants=const)
        c.sample({f: done[0][:3]})
        if ok and f == "secq":
            def corrupt(ps):
                ev = [e for e in ps[0] if "out" in e][-1]
                ev["be"] = ev["be"][:-1] + ("0" if ev["be"][-1] != "0" else "1")
            c.nonvacuous("TraceField", done[:1], corrupt, "recorded programs", constants=const)
