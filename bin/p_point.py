"""C04, C05: points, hashing to the curve, generators and commitments."""
import vt
from vt import hx

P = 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f   # order of the curve
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141   # field of the curve
GX = 0x76c39f5585cb160eb6b06c87a2ce32e23134e45a097781a6a24288e37702eda6
GY = 0x3ffc646c7b2918b5dc2d265a8e82a7f7d18983d26e8dc055a4120ddad952677f
IA = 3642995984045157452672683439396299070953881827175886364060394186787010798372
IB = 1771
KX = 0xea22cbf8021adb367192916b07fdf1de369000777ef91fb2199732b6b1782cf3
CONST = {"BIG": True, "P": hx(N), "CB": "7", "Order": hx(P), "Gen": [hx(GX), hx(GY)], "Reg": set(range(8)),
         "IA": hx(IA), "IB": hx(IB), "IZ": hx(N - 14), "KX": hx(KX)}


def rhs(x):
    return (x * x * x + 7) % N


def sqrt(a):
    # N = 1 mod 64: Tonelli-Shanks
    a %= N
    if a == 0:
        return 0
    if pow(a, (N - 1) // 2, N) != 1:
        return None
    q, s = N - 1, 0
    while q % 2 == 0:
        q //= 2
        s += 1
    z = 2
    while pow(z, (N - 1) // 2, N) != N - 1:
        z += 1
    m, c, t, r = s, pow(z, q, N), pow(a, q, N), pow(a, (q + 1) // 2, N)
    while t != 1:
        i, u = 0, t
        while u != 1:
            u = u * u % N
            i += 1
        b = pow(c, 1 << (m - i - 1), N)
        m, c, t, r = i, b * b % N, t * b * b % N, r * b % N
    return r


def be(n, k=32):
    return (n % (1 << (8 * k))).to_bytes(k, "big").hex()


def xs(rng, n):
    """abscissas near limits, and random ones"""
    base = [1, 2, 3, 4, 5, 6, 7, N - 1, N - 2, N - 3, N - 7, GX, (N - 1) // 2]
    out = base + [x for x in vt.field_pool(rng, N, n)]
    return [x for x in out if sqrt(rhs(x)) is not None]


def dec_ev(rng, d, good):
    x = rng.choice(good)
    k = rng.random()
    if k < .55:
        h = rng.choice(("02", "03")) + be(x)
    elif k < .62:
        y = sqrt(rhs(x))
        h = "04" + be(x) + be(rng.choice((y, N - y)))
    elif k < .66:
        y = sqrt(rhs(x))
        h = "04" + be(x) + be(rng.choice((y ^ (1 << rng.randrange(256)), x, 0, N - 1, N + y if N + y < 1 << 256 else y + 1)))
    elif k < .76:                                # non-canonical abscissa: x + N
        xx = rng.choice([t for t in range(0, 40)]) if rng.random() < .6 else rng.randrange((1 << 256) - N)
        h = rng.choice(("02", "03")) + be(xx + N)
    elif k < .86:
        h = rng.choice(("02", "03")) + be(rng.choice([0, 1, 2, 3, 5, 6, 7, N, N - 1, N + 1, (1 << 256) - 1, rng.getrandbits(256)]))
    elif k < .90:
        h = "00"
    else:
        h = rng.choice(["", "02", "04", "03" + be(x)[:-2], "02" + be(x) + "00", "06" + be(x), "01" + be(x), "ff" + be(x), "00" + be(x), "04" + be(x), "02" + be(x) + be(x)])
    return {"op": "dec", "d": d, "h": h, "form": rng.randrange(2)}


KS = [0, 1, 2, 3, 4, 7, 8, P - 1, P - 2, P, P + 1, (P - 1) // 2, (P + 1) // 2, N, N - 1, (1 << 128), (1 << 128) - 1, 1 << 255, (1 << 256) - 1, 1 << 64, 1 << 32, 0xf0f0f0f0, 15, 16, 17]


def point_programs(rng, n):
    good = xs(rng, 60)
    progs = []
    for _ in range(n):
        ev = [{"op": "gen", "d": 0, "form": rng.randrange(2)}, {"op": "id", "d": 1, "form": rng.randrange(3)}]
        for d in (2, 3):
            if rng.random() < .5:
                ev.append(dict(dec_ev(rng, d, good)))
            else:
                ev.append({"op": "dec", "d": d, "h": rng.choice(("02", "03")) + be(rng.choice(good)), "form": rng.randrange(2)})
        for _ in range(8):
            op = rng.choice(("add", "add", "sub", "sub", "neg", "double", "mul", "mul", "eq", "dec", "sum", "msm"))
            # operands: with some probability equal or opposite points in different registers
            a, b = rng.randrange(8), rng.randrange(8)
            d = rng.randrange(2, 8)
            if op in ("add", "sub"):
                k = rng.random()
                if k < .25:
                    ev.append({"op": "neg", "d": 7, "a": a})
                    b = 7
                elif k < .5:
                    b = a
                elif k < .6:
                    b = rng.choice((0, 1))
                ev.append({"op": op, "d": d, "a": a, "b": b, "form": rng.randrange(4)})
            elif op in ("neg", "double"):
                ev.append({"op": op, "d": d, "a": a})
            elif op == "mul":
                k = rng.choice(KS) if rng.random() < .6 else rng.getrandbits(256) if rng.random() < .5 else (rng.getrandbits(16) << rng.randrange(240))
                ev.append({"op": op, "d": d, "a": a, "k": hx(k), "form": rng.randrange(15)})
            elif op == "eq":
                ev.append({"op": "eq", "a": a, "b": rng.choice((a, b))})
            elif op == "dec":
                ev.append(dec_ev(rng, d, good))
            else:
                rs = [rng.randrange(8) for _ in range(rng.choice((0, 1, 2, 3, 5)) if rng.random() < .97 else rng.choice((9, 16, 33, 64, 100, 150, 300, 700)))]
                if op == "sum":
                    ev.append({"op": op, "d": d, "rs": rs, "form": rng.randrange(2)})
                else:
                    ks = [hx(rng.choice(KS) if rng.random() < .6 else rng.getrandbits(256)) for _ in rs]
                    if rs and rng.random() < .2:
                        ks = ks[:-1]
                    ev.append({"op": op, "d": d, "rs": rs, "ks": ks})
        progs.append(ev)
    return progs


def c04(c):
    c.model("MC_Big", "the evaluation of numbers and points by TLC", constants={"Max": c.n(10, 40), "Curves": {(13, 0, 2), (7, 0, 5), (11, 3, 6)}},
            invariants=["Numbers", "Digits", "Roots", "Group"], deadlock=False)
    c.model("MC_Curve", "y^2=x^3+2, P=13, order 19", constants={"BIG": False, "P": 13, "CB": 2, "Order": 19, "Gen": [1, 4], "Reg": {0, 1}},
            invariants=["TypeOK", "GroupLaws", "CompressLaw", "Counting"])
    if c.thorough:
        c.model("MC_Curve", "y^2=x^3+5, P=7, order 7, 3 registers", constants={"BIG": False, "P": 7, "CB": 5, "Order": 7, "Gen": [3, 2], "Reg": {0, 1, 2}},
                invariants=["TypeOK", "GroupLaws", "CompressLaw", "Counting"])
        c.model("MC_Curve", "y^2=x^3+7, P=61, order 61", constants={"BIG": False, "P": 61, "CB": 7, "Order": 61, "Gen": GEN61, "Reg": {0}},
                invariants=["TypeOK", "GroupLaws", "CompressLaw", "Counting"])
    drv, bt = vt.build("full", "drv_point")
    c.cov["build_s"] = round(bt, 1)
    done = vt.drive_parallel(drv, point_programs(c.rng, c.n(2500, 15000)))
    ok = c.trace("TraceCurve", done, "recorded programs over points", constants=CONST)
    c.sample(done[0][:4])
    if ok:
        def corrupt(ps):
            ev = [e for e in ps[0] if "enc" in e and len(e["enc"]) > 2][-1]
            ev["enc"] = ("03" if ev["enc"][:2] == "02" else "02") + ev["enc"][2:]
        c.nonvacuous("TraceCurve", done[:1], corrupt, "recorded programs", constants=CONST)


GEN61 = next([x, y] for x in range(61) for y in range(1, 61) if (y * y - x ** 3 - 7) % 61 == 0)


def exceptional(rng):
    """halves u for which the map takes an unusual branch: Z u^2 = -1 or 0, both candidate squares, sign of u"""
    z = N - 14
    out = [0, 1, 2, N - 1, N - 2]
    r = sqrt((-pow(z, -1, N)) % N)
    if r:
        out += [r, N - r]
    return out


def uniform_programs(rng, n):
    exc = exceptional(rng)
    progs = []
    R = 1 << 512
    for _ in range(n):
        ev = []
        for d in range(3):
            u = rng.choice(exc) if rng.random() < .4 else rng.choice(vt.field_pool(rng, N, 4)) if rng.random() < .5 else rng.randrange(N)
            v = rng.choice([u, N - u, rng.choice(exc), rng.randrange(N)])
            U, V = [t + N * (rng.randrange((R - t) // N) if rng.random() < .6 else (R - 1 - t) // N if rng.random() < .3 else 0) for t in (u, v)]
            if rng.random() < .05:
                U = rng.choice((R - 1, 0, N, 1 << 256, (1 << 256) - 1))
            ev.append({"op": "uniform", "d": d, "h": (U.to_bytes(64, "little") + V.to_bytes(64, "little")).hex()})
        progs.append(ev)
    return progs


def gens_programs(rng, n):
    progs = []
    pool = vt.field_pool(rng, P, 30)
    for i in range(n):
        k = rng.choice((0, 1, 1, 2, 3, 4, 5, 8)) if i % 20 != 7 else rng.choice((33, 65, 129))
        lab = rng.choice([b"", b"gens_r1cs_sat", b"gens_r1cs_eval", b"g", bytes(rng.randrange(256) for _ in range(rng.randrange(0, 200))), b"x" * 102, b"x" * 103, b"x" * 104])
        ev = [{"op": "gens", "n": k, "label": lab.hex()}]
        for d in range(2):
            m = k if rng.random() < .9 else rng.randrange(0, 6)
            vs = [hx(rng.choice(pool)) for _ in range(m)]
            ev.append({"op": "commit", "d": d, "vs": vs, "blind": hx(rng.choice(pool)), "form": rng.randrange(2) if m != 1 or k != 1 else rng.randrange(3)})
        ev.append({"op": "add", "d": 2, "a": 0, "b": 1})
        ev.append({"op": "family", "how": "scale", "k": hx(rng.choice(pool))})
        ev.append({"op": "family", "how": "split", "mid": rng.randrange(k + 1)})
        ev.append({"op": "family", "how": "clone"})
        if i % 4 == 0:
            ev.append({"op": "gens", "n": min(k + rng.randrange(3), 6), "label": lab.hex()})
        progs.append(ev)
    return progs


def c05(c):
    for p, cb, ia, ib, kx, z in [(13, 2, 4, 12, 2, 2), (61, 7, 18, 2, 43, 2)] + ([(7, 5, 3, 5, 2, 3), (73, 13, 34, 4, 47, 7)] if c.thorough else []):
        c.model("MC_MapToCurve", "map over P=%d" % p, constants={"P": p, "BIG": False, "CB": cb, "IA": ia, "IB": ib, "IZ": z, "KX": kx},
                invariants=["Constants", "Total", "Homomorphism"])
    drv, bt = vt.build("full", "drv_point")
    c.cov["build_s"] = round(bt, 1)
    done = vt.drive_parallel(drv, uniform_programs(c.rng, c.n(1200, 8000)))
    ok = c.trace("TraceCurve", done, "hashing to the curve", constants=CONST)
    if ok:
        def corrupt(ps):
            ev = ps[0][0]
            ev["out"], ev["enc"] = ps[0][1]["out"], ps[0][1]["enc"]
        c.nonvacuous("TraceCurve", [p for p in done if p[0]["out"] != p[1]["out"]][:1], corrupt, "hashing", constants=CONST)
    done = vt.drive_parallel(drv, gens_programs(c.rng, c.n(40, 1500)))
    c.trace("TraceCurve", done, "generators and commitments", constants=CONST)
    c.sample(done[0][1])
