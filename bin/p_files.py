"""C07..C10: circuit and witness files, conversion to constraint systems, satisfiability."""
import json
import vt
from vt import hx
from p_point import P

LE4 = lambda n: (n % (1 << 32)).to_bytes(4, "little")
LE8 = lambda n: (n % (1 << 64)).to_bytes(8, "little")
LE32 = lambda n: (n % (1 << 256)).to_bytes(32, "little")
BE32 = lambda n: (n % (1 << 256)).to_bytes(32, "big")
SPECIAL = [0, 1, 2, P - 1, P - 2, (1 << 224) - 1, 1 << 248, 255, 256, (1 << 128), 0xff << 248 if (0xff << 248) < P else 0, int.from_bytes(b"\xff" * 28 + b"\0" * 4, "little")]


def value(rng):
    k = rng.random()
    if k < .5:
        return rng.choice(SPECIAL) % P
    if k < .75:
        return rng.randrange(1, 50)
    return rng.randrange(P)


# ---------------------------------------------------------------- circuit files
def lc_bytes(lc):
    return LE4(len(lc)) + b"".join(LE4(w) + LE32(v) for w, v in lc)


def r1cs_file(c, order=((1,), (2,), (3,)), tail=b""):
    """(bytes, offsets of the sections' bodies)"""
    out = bytearray(b"r1cs" + LE4(1) + LE4(len(order)))
    offs = {}
    for o in order:
        if o[0] == 1:
            body = LE4(32) + LE32(c["prime"]) + LE4(c["wires"]) + LE4(c["pubOut"]) + LE4(c["pubIn"]) + LE4(c["prvIn"]) + LE8(c["labels"]) + LE4(len(c["cons"]))
        elif o[0] == 2:
            body = b"".join(lc_bytes(x) for k in c["cons"] for x in k)
        elif o[0] == 3:
            body = b"".join(LE8(x) for x in c["map"])
        else:
            body = o[1]
        out += LE4(o[0]) + LE8(len(body))
        offs[o[0]] = len(out)
        out += body
    return bytes(out) + tail, offs


def some_lc(rng, wires, k=None):
    k = rng.choice((0, 1, 1, 2, 3)) if k is None else k
    return [(rng.randrange(wires), value(rng)) for _ in range(k)]


def some_circuit(rng, wires=None, ncons=None):
    wires = wires or rng.choice((1, 2, 3, 4, 5, 8, 9))
    ncons = rng.choice((0, 1, 1, 2, 3, 4, 5)) if ncons is None else ncons
    pubs = rng.randrange(wires)
    po = rng.randrange(pubs + 1)
    m = [0] + [rng.choice((1, 2, 77, 1 << 32, (1 << 64) - 1, rng.getrandbits(40))) for _ in range(wires - 1)]
    return {"prime": rng.choice((P, P, P, rng.getrandbits(256))), "wires": wires, "pubOut": po, "pubIn": pubs - po, "prvIn": rng.randrange(wires),
            "labels": rng.choice((wires, 1 << 32, (1 << 64) - 1)), "map": m,
            "cons": [[some_lc(rng, wires) for _ in range(3)] for _ in range(ncons)]}


def some_order(rng):
    o = [(1,), (2,), (3,)]
    for _ in range(rng.choice((0, 0, 1, 2))):
        o.append((rng.choice((0, 4, 5, 9, 0x72, (1 << 32) - 1)), bytes(rng.randrange(256) for _ in range(rng.choice((0, 1, 7, 40))))))
    # two sections of one type would be ambiguous
    seen, r = set(), []
    for s in o:
        if s[0] not in seen:
            seen.add(s[0])
            r.append(s)
    rng.shuffle(r)
    return tuple(r)


def put(b, at, new):
    return b[:at] + new + b[at + len(new):]


def resized(rng, b, at, size):
    """the body of `size` bytes at `at`, its length written in the 8 bytes before it, with bytes put in or taken out"""
    for k in (1, 4, 8, 32, rng.randrange(1, 200)):
        for pos in {at, at + size, at + rng.randrange(size + 1)}:
            junk = rng.choice((bytes(k), bytes(rng.randrange(256) for _ in range(k)), b[pos:pos + k] if len(b) >= pos + k else bytes(k)))
            yield b[:at - 8] + LE8(size + k) + b[at:pos] + junk + b[pos:]
    for k in {1, 4, 8, 12, 32, size} & set(range(1, size + 1)):
        for pos in {at, at + size - k}:
            yield b[:at - 8] + LE8(size - k) + b[at:pos] + b[pos + k:]


def corruptions(rng, c, order):
    """one field changed: each must be refused, or is a different circuit"""
    b, o = r1cs_file(c, order)
    h, cs, ms = o[1], o[2], o[3]
    yield put(b, rng.randrange(4), bytes([rng.randrange(256)]))
    for v in (0, 2, 3, 256, 1 << 24, (1 << 32) - 1):
        yield put(b, 4, LE4(v))
    for v in (0, len(order) - 1, len(order) + 1, 1 << 16):
        yield put(b, 8, LE4(v))
    for v in (0, 31, 33, 8, 64, 32 << 8):
        yield put(b, h, LE4(v))
    for v in (0, 63, 65, 32, 64 << 8):
        yield put(b, h - 8, LE8(v))
    # several fields changed so that the sizes agree with each other, but not with this format
    yield put(put(b, h - 8, LE8(63)), h, LE4(31))
    yield put(put(b, h - 8, LE8(65)), h, LE4(33))
    for v in (0, c["wires"] - 1, c["wires"] + 1, c["wires"] + (1 << 16), c["wires"] + (1 << 29), c["wires"] | 1 << 31):
        yield put(b, h + 36, LE4(v))
    for k in (40, 44, 48):
        yield put(b, h + k, LE4(rng.choice((0, 1, 7, 255, 1 << 31, (1 << 32) - 1))))
    yield put(b, h + 52, LE8(rng.getrandbits(64)))
    n = len(c["cons"])
    for v in {0, n - 1, n + 1, n + 2, 1000, 1 << 16} - {n, -1}:
        yield put(b, h + 60, LE4(v))
    size = int.from_bytes(b[cs - 8:cs], "little")
    for v in {0, size - 1, size + 1, size + 4, size - 12, size + 12, len(b), (1 << 64) - 12, 1 << 63} - {size}:
        yield put(b, cs - 8, LE8(v))
    size = int.from_bytes(b[ms - 8:ms], "little")
    for v in {0, size - 1, size + 1, size - 8, size + 8, (1 << 64) - 12} - {size}:
        yield put(b, ms - 8, LE8(v))
    for v in (1, 255, 1 << 32, 1 << 63):
        yield put(b, ms, LE8(v))
    # a section made longer or shorter by some bytes, its length told rightly and the rest of the file moved along
    for at in (h, cs, ms):
        yield from resized(rng, b, at, int.from_bytes(b[at - 8:at], "little"))
    # the first coefficient: not below the modulus; the first counts
    at = cs
    for k in c["cons"]:
        for lc in k:
            if lc:
                for v in (P, P + 1, (1 << 256) - 1, P - 1, (1 << 255)):
                    yield put(b, at + 8, LE32(v))
                yield put(b, at, LE4(len(lc) - 1))
                yield put(b, at, LE4(len(lc) + 1))
                yield put(b, at, LE4(1 << 15))
                yield put(b, at + 4, LE4(rng.choice((c["wires"], c["wires"] + 1, 1 << 31))))
                return
            yield put(b, at, LE4(1))
            at += 4


def r1cs_events(rng, n):
    """programs of reads"""
    progs = []
    for i in range(n):
        c, order = some_circuit(rng), some_order(rng)
        b, _ = r1cs_file(c, order)
        ev = [{"op": "r1cs", "h": b.hex(), "lax": False}]
        if i % 5 == 0:
            ev += [{"op": "r1cs", "h": x.hex(), "lax": False} for x in corruptions(rng, c, order)]
        elif i % 5 == 1:
            cuts = range(len(b)) if len(b) < 420 else rng.sample(range(len(b)), 90)
            ev += [{"op": "r1cs", "h": b[:k].hex(), "lax": False} for k in cuts]
        elif i % 5 == 2:
            t, _ = r1cs_file(c, order, tail=bytes(rng.randrange(256) for _ in range(rng.randrange(1, 20))))
            ev.append({"op": "r1cs", "h": t.hex(), "lax": True})
            d, _ = r1cs_file(c, order + ((rng.choice((1, 2, 3)),),))
            ev.append({"op": "r1cs", "h": d.hex(), "lax": True})
            ev += [{"op": "r1cs", "h": r1cs_file(c, [o for o in order if o[0] != k])[0].hex(), "lax": False} for k in (1, 2, 3)]
        else:
            big = some_circuit(rng, wires=rng.choice((16, 17, 40)), ncons=rng.randrange(6, 20))
            ev.append({"op": "r1cs", "h": r1cs_file(big, some_order(rng))[0].hex(), "lax": False})
        progs.append(ev)
    # more of everything than sixteen bits count
    n = (1 << 16) + rng.randrange(1, 40)
    c = some_circuit(rng, wires=3, ncons=1)
    c.update(wires=n, map=[0] + [rng.getrandbits(40) for _ in range(n - 1)], cons=[[[(n - 1, value(rng)), (rng.randrange(n), value(rng))], [(n - 2, 1)], []]])
    progs.append([{"op": "r1cs", "h": r1cs_file(c)[0].hex(), "lax": False}])
    c = some_circuit(rng, wires=3, ncons=1)
    c["cons"] = [[some_lc(rng, 3, k) for k in (1, 0, 0)] for _ in range(n)]
    progs.append([{"op": "r1cs", "h": r1cs_file(c)[0].hex(), "lax": False}])
    c = some_circuit(rng, wires=9, ncons=1)
    c["cons"] = [[some_lc(rng, 9, n), [], some_lc(rng, 9, 300)]]
    progs.append([{"op": "r1cs", "h": r1cs_file(c)[0].hex(), "lax": False}])
    return progs


# ---------------------------------------------------------------- witness files
def wtns_file(vals, prime=P, version=2, **k):
    g = lambda name, d: k.get(name, d)
    return (g("magic", b"wtns") + LE4(version) + LE4(g("nsec", 2)) + LE4(g("t1", 1)) + LE8(g("s1", 40)) + LE4(g("fs", 32)) + LE32(prime) +
            LE4(g("len", len(vals))) + LE4(g("t2", 2)) + LE8(g("s2", 32 * len(vals))) + b"".join(LE32(v) for v in vals))


def wtns_corruptions(rng, vals, full):
    n = len(vals)
    for k, vs in (("magic", (b"wtnt", b"WTNS", b"\0tns", b"r1cs", b"snfs")), ("version", (3, 4, 256, 1 << 31)), ("nsec", (0, 1, 3, 2 << 8)), ("t1", (0, 2, 3)), ("s1", (0, 39, 41, 8, 40 << 32)),
                  ("fs", (0, 31, 33, 64)), ("len", {0, n - 1, n + 1, n + (1 << 16), n + (1 << 20)} - {n, -1}), ("t2", (0, 1, 3)),
                  ("s2", {0, 32 * n - 1, 32 * n + 1, 32 * n + 32, 32 * n - 32, 32 * n + (1 << 32), 32 * n + (1 << 40)} - {32 * n, -1, -32})):
        for v in vs:
            yield wtns_file(vals, **{k: v})
    b = wtns_file(vals)
    yield from resized(rng, b, 24, 40)
    yield from resized(rng, b, 76, 32 * n)
    # both lengths agree, the contents do not
    yield wtns_file(vals, len=n + 1, s2=32 * n + 32)
    if n:
        for v in (P, P + 1, (1 << 256) - 1):
            x = list(vals)
            x[rng.randrange(n)] = v
            yield wtns_file(x)
    b = wtns_file(vals)
    for k in (range(len(b)) if full else rng.sample(range(len(b)), 12)):
        yield b[:k]


def wtns_events(rng, n):
    progs = []
    for i in range(n):
        vals = [value(rng) for _ in range(rng.choice((0, 1, 2, 3, 5, 17)))]
        b = wtns_file(vals, prime=rng.choice((P, rng.getrandbits(256))))
        ev = [{"op": "wtns", "h": b.hex(), "lax": False}, {"op": "wtns", "h": wtns_file(vals, version=rng.randrange(2)).hex(), "lax": True},
              {"op": "wtns", "h": (b + b"\1\2").hex(), "lax": True}]
        if i % 4 == 0:
            ev += [{"op": "wtns", "h": x.hex(), "lax": False} for x in wtns_corruptions(rng, vals, i % 16 == 0)]
        progs.append(ev)
    vals = [value(rng) for _ in range((1 << 16) + rng.randrange(1, 40))]
    progs.append([{"op": "wtns", "h": wtns_file(vals).hex(), "lax": False}])
    return progs


# ---------------------------------------------------------------- systems
def ev_lc(lc, z):
    return sum(z[w] * v for w, v in lc) % P


def solved_circuit(rng, wires, ncons, z):
    """constraints that z satisfies; every wire is likely to matter"""
    cons = []
    for i in range(ncons):
        a, b, k = some_lc(rng, wires, rng.randrange(1, 4)), some_lc(rng, wires, rng.randrange(1, 3)), some_lc(rng, wires, rng.randrange(0, 3))
        t = rng.random()
        if t < .25:                               # one side, or both, say nothing: a linear constraint
            a, b = rng.choice(([], a)), rng.choice(([], b))
            if a and b:
                a = []
        elif t < .5:                              # a wire named twice, or with coefficient zero, or terms that cancel
            for lc in (a, b, k):
                if lc and rng.random() < .7:
                    w, v = rng.choice(lc)
                    lc.append(rng.choice(((w, v), (w, P - v if v else 0), (w, value(rng)), (rng.randrange(wires), 0))))
        elif t < .6 and cons:                     # the constraint before once more, or parts of it
            p = rng.choice(cons)
            a, b, k = list(p[0]), list(p[1]), rng.choice((list(p[2]), k))
        elif t < .8:                              # pin a public wire to a private one
            a, b, k = [(rng.randrange(wires), 1)], [(0, 1)], [(rng.randrange(wires), 1)]
        want = ev_lc(a, z) * ev_lc(b, z) - ev_lc(k, z)
        nz = [w for w in range(wires) if z[w]] or [0]
        w = rng.choice([0, rng.choice(nz)])
        k.append((w, want * pow(z[w], -1, P) % P))
        cons.append([a, b, k])
    return cons


def conv_programs(rng, n, prove_every):
    progs = []
    for i in range(n):
        wires = rng.choice((1, 2, 3, 4, 5, 6, 7, 8, 9))
        npub = rng.randrange(wires)
        z = [1] + [value(rng) for _ in range(wires - 1)]
        cons = solved_circuit(rng, wires, rng.choice((1, 1, 2, 3, 4, 5)), z)
        bad = rng.random() < .07
        if bad:                                   # a wire that does not exist
            lc = rng.choice(rng.choice(cons))
            lc.append((rng.choice((wires, wires + 1, wires + npub, wires + npub + 1)), 1))
        c = {"prime": P, "wires": wires, "pubOut": 0, "pubIn": npub, "prvIn": 0, "labels": wires, "map": list(range(wires)), "cons": cons}
        f = r1cs_file(c, some_order(rng))[0]
        ev = [{"op": "conv", "h": f.hex(), "npub": npub}]
        pub = z[1:npub + 1]

        def sat(v, p):
            ev.append({"op": "sat", "vars": [LE32(x).hex() for x in v], "inputs": [LE32(x).hex() for x in p]})
        sat(z, pub)
        sat([0] * wires, pub)
        for t in (0, 2, P - 1):
            sat([t] + z[1:], pub)                 # the prover's own "constant"
        for j in range(npub):
            q = list(pub)
            q[j] = rng.choice((0, 1, (q[j] + 1) % P, (P - q[j]) % P, rng.randrange(P)))
            sat(z, q)                             # another public value, the old one kept privately
            y = list(z)
            y[j + 1] = q[j]
            sat(y, pub)                           # the reverse: does not matter
            sat(y, q)
        y = [1] + [value(rng) for _ in range(wires - 1)]
        sat(y, pub)
        sat(y, y[1:npub + 1])
        if npub:
            sat(z, pub[:-1])
            sat(z, pub[1:] + pub[:1])
        sat(z, pub + [0])
        sat(z + [0] * rng.randrange(1, 9), pub)
        sat([x if k > npub else rng.randrange(P) for k, x in enumerate(z)], pub)
        if rng.random() < .2:
            ev.append({"op": "sat", "vars": [LE32(x).hex() for x in z[:-1]] + [LE32(P + rng.randrange(3)).hex()], "inputs": [LE32(x).hex() for x in pub]})
        if i % prove_every == 0 and not bad:
            w, ph = wtns_file(z).hex(), b"".join(BE32(x) for x in pub).hex()
            ev.append({"op": "prove", "wtns": w, "inputs": ph})
            ev.append({"op": "verify", "inputs": ph})
            for j in range(npub):
                q = list(pub)
                q[j] = (q[j] + rng.choice((1, P - 1, 1 << 128))) % P
                ev.append({"op": "verify", "inputs": b"".join(BE32(x) for x in q).hex()})
                rev = [int.from_bytes(LE32(x), "big") for x in pub]
                if rev != pub and max(rev) < P:
                    ev.append({"op": "verify", "inputs": b"".join(BE32(x) for x in rev).hex()})
                if pub[j] + P < 1 << 256:
                    ev.append({"op": "verify", "inputs": b"".join(BE32(x + (P if k == j else 0)) for k, x in enumerate(pub)).hex()})
            if npub:
                q = [(pub[0] + 1) % P] + pub[1:]
                ev.append({"op": "prove", "wtns": w, "inputs": b"".join(BE32(x) for x in q).hex()})
                ev.append({"op": "verify", "inputs": b"".join(BE32(x) for x in q).hex()})
                ev.append({"op": "verify", "inputs": ph})
            t = rng.choice((2, 0, P - 1))
            ev.append({"op": "prove", "wtns": wtns_file([t] + z[1:]).hex(), "inputs": ph})
            ev.append({"op": "verify", "inputs": ph})
            ev.append({"op": "prove", "wtns": wtns_file(z)[:-1].hex(), "inputs": ph})
            ev.append({"op": "verify", "inputs": ph})
        progs.append(ev)
    return progs


def mat(rng, nc, nv, ni, k):
    return [[rng.randrange(nc), rng.randrange(nv + 1 + ni), value(rng)] for _ in range(k)] if nc else []


def inst_programs(rng, n):
    progs = []
    for i in range(n):
        nc = rng.choice((0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 13))
        nv = rng.choice((0, 1, 2, 3, 4, 5, 7, 8, 9, 12))
        ni = rng.choice((0, 0, 1, 2, 3, 4, 7, 8, 10))
        A, B, C = [mat(rng, nc, nv, ni, rng.choice((0, 1, 2, nc, 2 * nc))) for _ in range(3)]
        for M in (A, B, C):                       # several entries at one place
            if M and rng.random() < .3:
                r, k, v = rng.choice(M)
                M.append([r, k, rng.choice((v, P - v if v else 0, 1))])
        z = [value(rng) for _ in range(nv)]
        x = [value(rng) for _ in range(ni)]
        full = z + [1] + x
        row = lambda M, r: sum(v * full[k] for q, k, v in M if q == r) % P
        if rng.random() < .8:                     # make z a solution
            for r in range(nc):
                d = (row(A, r) * row(B, r) - row(C, r)) % P
                if d or rng.random() < .2:
                    nz = [k for k in range(len(full)) if full[k]]
                    k = rng.choice([nv, rng.choice(nz)])
                    C.append([r, k, d * pow(full[k], -1, P) % P])
        rng.shuffle(C)
        enc = lambda M: [[r, k, LE32(v).hex()] for r, k, v in M]
        e = {"op": "inst", "nc": nc, "nv": nv, "ni": ni, "A": enc(A), "B": enc(B), "C": enc(C)}
        ev = []
        if rng.random() < .35:                    # one entry that must be refused
            bad = json.loads(json.dumps(e))
            M = bad[rng.choice("ABC")]
            t = rng.choice(([nc, 0, 1], [nc, nv, 0], [0, nv + 1 + ni, 1], [0, nv + 1 + ni, 0], [nc + 7, 1, 1], [0, nv + ni + 2, 5], [0, 0, P], [0, nv, P + 1], [0, 0, (1 << 256) - 1], [0, nv + ni, P + (1 << 32)], [1 << 30, 0, 1], [0, 1 << 30, 1]))
            M.insert(rng.randrange(len(M) + 1), [t[0], t[1], LE32(t[2]).hex()])
            ev.append(bad)
        ev.append(e)

        def sat(v, p):
            ev.append({"op": "sat", "vars": [LE32(y).hex() for y in v], "inputs": [LE32(y).hex() for y in p]})
        sat(z, x)
        for _ in range(4):
            z2, x2 = list(z), list(x)
            k = rng.randrange(nv + ni) if nv + ni else None
            if k is not None:
                if k < nv:
                    z2[k] = rng.choice(((z2[k] + 1) % P, 0, rng.randrange(P)))
                else:
                    x2[k - nv] = rng.choice(((x2[k - nv] + 1) % P, 0, rng.randrange(P)))
            sat(z2, x2)
        sat([0] * nv, [0] * ni)
        nvp = 1
        while nvp < max(nv, ni + 1):
            nvp *= 2
        ncp = 2
        while ncp < nc:
            ncp *= 2
        for k in {nvp, nvp + 1, nvp - 1, 2 * nvp, 0, nv + 1}:
            sat((z + [value(rng) for _ in range(2 * nvp)])[:k], x)
        for k in {0, ni + 1, ni - 1, nvp} - {ni, -1}:
            sat(z, (x + [0] * 40)[:k])
        if nv:
            ev.append({"op": "sat", "vars": [LE32(P + rng.randrange(3)).hex()] + [LE32(y).hex() for y in z[1:]], "inputs": [LE32(y).hex() for y in x]})
        lx, ly = ncp.bit_length() - 1, (2 * nvp).bit_length() - 1
        pt = lambda k: [hx(value(rng) if rng.random() < .7 else rng.randrange(2)) for _ in range(k)]
        ev.append({"op": "eval", "rx": pt(lx), "ry": pt(ly)})
        ev.append({"op": "eval", "rx": [hx(rng.randrange(2)) for _ in range(lx)], "ry": [hx(rng.randrange(2)) for _ in range(ly)]})
        zz = (z + [0] * (nvp - nv)) + [1] + x
        ev.append({"op": "multiply", "z": [hx(v) for v in zz]})
        ev.append({"op": "multiply", "z": [hx(value(rng)) for v in range(2 * nvp)]})
        progs.append(ev)
    return progs


def synth_programs(rng, n):
    """systems the library makes up together with an assignment, and assignments one off"""
    progs = []
    for i in range(n):
        nv = rng.choice((1, 2, 4, 8, 16))
        nc = rng.choice((2, 4, 8, 16, 32, 64))
        ni = rng.choice([0, nv - 1, nv // 2] + [rng.randrange(nv)])
        if i % 10 == 9:
            nc, nv, ni = rng.choice(((3, 4, 1), (4, 3, 1), (4, 4, 4), (2, 2, 5)))
        progs.append([{"op": "synth", "nc": nc, "nv": nv, "ni": ni}] + [{"op": "near", "k": k} for k in rng.sample(range(nv + ni), min(4, nv + ni))])
    return progs


RC = {"P": hx(P), "BIG": True, "Q": hx(P)}


def file_models(c):
    c.model("MC_Files", "every section order, truncation and damaged field", constants={"Q": "d", "Vals": {"1", "c"}, "MaxC": c.n(1, 2)},
            invariants=["Exact", "RefusesDamage", "NotAmbiguous"], deadlock=False)


def flip(kind):
    def f(ps):
        for p in ps:
            for e in p:
                if e["op"] == "r1cs" and e.get("ok") and e["circuit"]["cons"]:
                    for k in e["circuit"]["cons"]:
                        for lc in k:
                            if lc:
                                lc[0][1] = "7" if lc[0][1] != "7" else "8"
                                return
                if e["op"] == "wtns" and e.get("ok") and e["vals"]:
                    e["vals"][-1] = "7" if e["vals"][-1] != "7" else "8"
                    return
    return f


def c07(c):
    file_models(c)
    drv, bt = vt.build("full", "drv_io")
    c.cov["build_s"] = round(bt, 1)
    done = vt.drive_parallel(drv, r1cs_events(c.rng, c.n(120, 2500)))
    if c.trace("TraceFiles", done, "circuit files read", constants={"Q": hx(P)}):
        c.nonvacuous("TraceFiles", [p for p in done if p[0].get("ok") and any(lc for k in p[0]["circuit"]["cons"] for lc in k)][:1], flip("r1cs"), "circuit files", constants={"Q": hx(P)})
    c.sample({k: v for k, v in done[0][0].items() if k != "h"})


def c08(c):
    file_models(c)
    drv, bt = vt.build("full", "drv_io")
    c.cov["build_s"] = round(bt, 1)
    done = vt.drive_parallel(drv, wtns_events(c.rng, c.n(160, 2500)))
    if c.trace("TraceFiles", done, "witness files read", constants={"Q": hx(P)}):
        c.nonvacuous("TraceFiles", [p for p in done if p[0].get("ok") and p[0]["vals"]][:1], flip("wtns"), "witness files", constants={"Q": hx(P)})
    c.sample(done[1][0])
    rng, progs = c.rng, []
    pool = vt.field_pool(rng, P, 20)
    for _ in range(c.n(24, 400)):
        a, b = rng.choice(pool), rng.choice(pool)
        good = LE32(a) + LE32(b)
        progs.append([{"op": "bytes", "h": h.hex()} for h in (good, LE32(P + rng.randrange(3)) + LE32(b), LE32(a) + LE32(rng.choice((P, (1 << 256) - 1))), good[:63], good + b"\0", good[:32], b"", BE32(a) + BE32(b))])
    done = vt.drive_parallel(drv, [[dict(e, op="poseidon") for e in p] for p in progs])
    for p in done:
        for e in p:
            e["op"] = "bytes"
    c.trace("TracePoseidon", done, "digests through the byte interface", constants=POS)
    done = vt.drive_parallel(drv, conv_programs(rng, c.n(24, 200), 1))
    c.trace("TraceR1CS", done, "proofs from witness files", constants=RC)


POS = {"P": hx(P), "BIG": True, "FullRounds": 8, "PartialRounds": 56, "Bits": 256}


def r1cs_models(c, which):
    if which == "conv":
        c.model("MC_R1CS", "circuits and their conversion over P=3", constants={"P": 3, "BIG": False, "MaxCons": c.n(1, 2), "MaxVars": 2, "MaxIns": 0, "MaxEntries": 3},
                invariants=["ConvertBinds"], deadlock=False)
    else:
        c.model("MC_R1CS", "systems, padding and extensions over P=3", constants={"P": 3, "BIG": False, "MaxCons": 2, "MaxVars": 2, "MaxIns": c.n(1, 2), "MaxEntries": c.n(2, 3)},
                invariants=["PadKeeps", "MleAgrees"], deadlock=False)


def c09(c):
    r1cs_models(c, "conv")
    drv, bt = vt.build("full", "drv_io")
    c.cov["build_s"] = round(bt, 1)
    done = vt.drive_parallel(drv, conv_programs(c.rng, c.n(160, 2500), c.n(4, 6)))
    ok = c.trace("TraceR1CS", done, "circuits converted, proved, verified", constants=RC)
    c.cov["answers"] = tally(done)
    if ok:
        def corrupt(ps):
            e = [e for e in ps[0] if e["op"] == "sat" and e.get("res") in ("yes", "no")][0]
            e["res"] = "no" if e["res"] == "yes" else "yes"
        c.nonvacuous("TraceR1CS", done[:1], corrupt, "conversions", constants=RC)
    c.sample({k: v for k, v in done[0][0].items() if k != "h"})


def tally(done):
    t = {}
    for p in done:
        for e in p:
            k = "%s:%s" % (e["op"], e.get("res", e.get("ok", "panic" if "panic" in e else "-")))
            t[k] = t.get(k, 0) + 1
    return t


def c10(c):
    r1cs_models(c, "pad")
    drv, bt = vt.build("full", "drv_io")
    c.cov["build_s"] = round(bt, 1)
    done = vt.drive_parallel(drv, inst_programs(c.rng, c.n(350, 5000)) + synth_programs(c.rng, c.n(60, 600)))
    ok = c.trace("TraceR1CS", done, "systems built and tested", constants=RC)
    c.cov["answers"] = tally(done)
    if ok:
        def corrupt(ps):
            e = [e for e in ps[0] if e["op"] == "sat" and e.get("res") in ("yes", "no")][-1]
            e["res"] = "no" if e["res"] == "yes" else "yes"
        c.nonvacuous("TraceR1CS", done[:1], corrupt, "systems", constants=RC)
    c.sample(done[0][0])
