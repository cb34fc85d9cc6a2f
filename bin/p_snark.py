"""C17: succinct proofs with committed circuits."""
import bc
from vt import hx
import vt
from p_poly import Src, ints
from p_proto import CONST, SYS, Gens, alterations, dup, flip, holds, kind, other_scalar, other_systems, padded, slim, sizes, some_points, some_system, tally, P

LBL = "gens_r1cs_eval"


def log2(n):
    return n.bit_length() - 1


def p2(n):
    return 1 << max(0, (n - 1).bit_length())


def nnz(e):
    return max(1, max(len(e[m]) for m in "ABC"))


def gen_sizes(e):
    nc, nv = padded(e)
    k = log2(p2(max(2, nnz(e))))
    half = lambda l: 1 << (l - l // 2)
    return {"sat": half(log2(nv)), "ops": half(k + 4), "derefs": half(k + 3), "mem": half(max(log2(nc), log2(2 * nv)) + 1)}


def dress_snark(gens, evs):
    evs = [e for e in evs if kind(e) in ("snark", "eval")]
    gens.fetch([k for e in evs for z in [gen_sizes(e)] for k in (("gens_r1cs_sat", z["sat"]), (LBL, z["ops"]), (LBL, z["derefs"]), (LBL, z["mem"]))])
    for e in evs:
        z = gen_sizes(e)
        e["g"] = dict(gens.pick("gens_r1cs_sat", z["sat"], "log", "three", "four"))
        for k in ("ops", "derefs", "mem"):
            e["g"][k] = gens.have[LBL, z[k]]["log"]
        if e["op"].endswith("_p") and e.get("ok"):
            e["pf"] = bc.parse(bc.SNARK if kind(e) == "snark" else bc.EVALP, e["proof"])
        if "comm" in e and "commv" not in e:
            e["commv"] = bc.parse(bc.R1CSCOMM, e["comm"])


def committed(rng, n):
    """systems for the succinct proof"""
    s = Src(rng)
    out = []
    while len(out) < n:
        k = len(out) % 5
        z = (1, 1, rng.choice((0, 1))) if k == 0 else (rng.choice((4, 5, 8)), rng.choice((1, 2, 3)), 0) if k == 1 else sizes(rng)
        e = some_system(rng, s, *z, sat=rng.random() < .9)
        if k == 0 and rng.random() < .6:                            # no more than one entry per matrix
            e = {"nc": 1, "nv": 1, "ni": z[2], "vars": [s()], "inputs": [s() for _ in range(z[2])], "A": [], "B": [], "C": []}
            if rng.random() < .6:
                e["A"], e["B"], e["C"] = [[0, 0, "1"]], [[0, 1, "1"]], [[0, 0, "1"]]
        e["nnz"] = nnz(e)
        out.append(e)
    return out


def crowded(rng):
    """more entries at one place than eight bits count"""
    s = Src(rng)
    k = rng.randrange(257, 300)
    one = [[0, 0, s()] for _ in range(k)]
    return {"nc": 2, "nv": 1, "ni": 0, "vars": ["0"], "inputs": [], "A": one, "B": [[1, 1, "1"]], "C": [[1, 0, s()], [0, 0, s()]], "nnz": k}


def first_phase(rng, n):
    out = []
    s = Src(rng)
    for i, e in enumerate(committed(rng, n) + [crowded(rng) for _ in range((n + 14) // 100 + 1)]):
        sysm = {k: e[k] for k in SYS}
        e["given"] = rng.random() < .5
        p = [dict(sysm, op="snark_e", d="0", nnz=e["nnz"], given=e["given"])]
        if i % 3:
            p.append(dict(e, op="snark_p", d="0", seed=s()))
        nc, nv = padded(e)
        for _ in range(1 if i % 3 else 2):
            q = dict(sysm, op="eval_p", nnz=e["nnz"], seed=s(), rx=s.vec(log2(nc)), ry=s.vec(log2(2 * nv)))
            p.append(q)
        if i % 4 == 0:
            p.append(dict(dup(q), evals=s.vec(3)))
        out.append(p)
    return out


def resize(rng, v):
    """vectors of evaluations cut, moved and extended together"""
    out = []
    h = v["hash"]
    for k in ("row", "col"):
        o = dup(v)
        o["hash"][k] = [[], [], h[k][2]]
        out.append(o)
        o = dup(v)
        o["hash"][k] = [[], h[k][0] + h[k][1], h[k][2]]
        out.append(o)
        o = dup(v)                                                   # moved from one vector to its neighbour: the joint opening is the same
        a, b = o["hash"][k][0], o["hash"][k][1]
        if rng.random() < .5:
            b.insert(0, a.pop())
        else:
            a.append(b.pop(0))
        out.append(o)
    o = dup(v)
    o["hash"]["val"].append("0")
    out.append(o)
    o = dup(v)
    o["hash"]["val"] = o["hash"]["val"] + ["0"] * rng.randrange(1, 3)
    out.append(o)
    o = dup(v)
    o["prod"]["val"][1].append("1")
    out.append(o)
    for k in (0, 1):
        o = dup(v)
        o["hash"]["derefs"][k] = o["hash"]["derefs"][k] + ["0"]
        out.append(o)
    o = dup(v)
    o["hash"]["derefs"] = [x + ["0"] for x in o["hash"]["derefs"]]
    out.append(o)
    return out


def snark_verifications(rng, e, comm, n_alter):
    s = Src(rng)
    k = kind(e)
    sch = bc.SNARK if k == "snark" else bc.EVALP
    sysm = {x: e[x] for x in SYS}
    nc, nv = padded(e)
    psz = [nc, nv, e["ni"]]
    keep = dict(sysm, op=k + "_v", nnz=e["nnz"], psizes=psz, seed=e["seed"])
    if k == "snark":
        keep.update(d="0", inputs=e["inputs"], commv=comm, given=e["given"])
    else:
        keep.update(rx=e["rx"], ry=e["ry"], evals=e["evals"], comm=e["comm"])
    pool = some_points(rng, 3) + ((e["pf"]["sat"]["comm_vars"] if k == "snark" else []) + e["pf"]["eval" if k == "snark" else "comm_derefs"][:2] if k == "eval" else [])

    def req(pf=None, **kw):
        pf = e["pf"] if pf is None else pf
        return dict(dup(keep), proof=bc.emit(sch, pf), pf=dup(pf), **kw)
    out = [req(twin=-1)]
    if (k == "eval" or holds(e)) and not e.get("false"):
        out[0]["must"] = True
    for pf in alterations(rng, s, sch, e["pf"], pool, n_alter):
        out.append(req(pf))
    for v in resize(rng, e["pf"]["eval"] if k == "snark" else e["pf"]):
        if n_alter is None or rng.random() < .4:
            out.append(req(dict(dup(e["pf"]), eval=v) if k == "snark" else v))
    if k == "snark":
        for i in range(e["ni"]):
            o = req()
            o["inputs"][i] = other_scalar(rng, s, o["inputs"][i])
            out.append(o)
        for x in [e["inputs"] + ["0"]] + [e["inputs"][:-1]] * (e["ni"] > 0):
            out.append(dict(req(), inputs=x))
    else:
        for f in ("rx", "ry", "evals"):
            o = req()
            i = rng.randrange(len(o[f]))
            o[f][i] = other_scalar(rng, s, o[f][i])
            out.append(o)
            if rng.random() < .3:
                o = req()
                o[f] = o[f] + ["0"] if f != "evals" else list(reversed(o[f]))
                out.append(o)
        c = bc.parse(bc.R1CSCOMM, e["comm"])
        for f in ("ops", "mem"):
            v = dup(c)
            i = rng.randrange(len(v["comm"][f]))
            v["comm"][f][i] = rng.choice(pool)
            out.append(dict(req(), comm=bc.emit(bc.R1CSCOMM, v)))
        for f, z in (("num_ops", 2), ("num_mem_cells", 2)):
            v = dup(c)
            v["comm"][f] *= z
            out.append(dict(req(), comm=bc.emit(bc.R1CSCOMM, v)))
    out.append(dict(req(), seed=s()))
    raw = bytes.fromhex(out[0]["proof"])
    for b in (raw[:-1], raw[:rng.randrange(len(raw))], b""):
        out.append(dict(dup(keep), proof=b.hex(), raw=True))
    return out


def snark_traces(c, drv, n, full_every, n_alter):
    rng = c.rng
    gens = Gens(drv)
    first = vt.drive_parallel(drv, first_phase(rng, n))
    for p in first:
        dress_snark(gens, p)
        for e in p[1:]:
            if e["op"] == "snark_p" and "commv" in p[0]:
                e["commv"] = p[0]["commv"]
    done = []
    second = []
    for i, p in enumerate(first):
        more = []
        enc = p[0]
        for e in p[1:]:
            if e.get("ok"):
                more += snark_verifications(rng, e, enc["commv"], None if full_every and i % full_every == full_every - 1 else n_alter)
        if more and any(e["op"] == "snark_v" for e in more):        # the commitments of other systems
            here = [{k: enc[k] for k in SYS + ("nnz", "op", "d")}]
            sp = next(e for e in more if e["op"] == "snark_v")
            for j, o in enumerate(other_systems(rng, Src(rng), enc)[:2]):
                o = dict(o, op="snark_e", d=str(j + 1), nnz=nnz(o))
                if p2(max(2, o["nnz"])) == p2(max(2, enc["nnz"])):
                    here.append(o)
                    v = dup(sp)
                    v.pop("must", None)
                    v.pop("twin", None)
                    more.append(dict(v, d=o["d"], **{k: o[k] for k in SYS}))
            more = here + more
        second.append(more)
    it = iter(vt.drive_parallel(drv, [x for x in second if x]))
    for p, x in zip(first, second):
        q = next(it) if x else []
        dress_snark(gens, q)
        named = {}
        for e in q:
            if e["op"] == "snark_e" and e.get("ok"):
                named[e["d"]] = e["commv"]
            elif e["op"] == "snark_v":
                e["commv"] = named[e["d"]]
            if e.pop("raw", None):
                e["op"] = "raw_v"
                for k in list(e):
                    if k not in ("op", "ok"):
                        del e[k]
        made = [e for e in p[1:] if e.get("ok")]                     # what the verifier saw is what the prover saw
        for e in q:
            if "twin" in e:
                e["twin"] = 1
                done.append(slim([made.pop(0), e]))
        p = slim([e for e in p + q if e["op"] == "snark_e" or not any(e is x for d in done[-8:] for x in d)])
        done += [p[i:i + 12] for i in range(0, len(p), 12)]         # events stand for themselves
    return done


# ------------------------------------------------------------------ provers that deviate (harness/full/src/forge.rs)
def entries(e):
    """the matrices as committed to: padded columns, filled up when there are less than two constraints"""
    _, nv = padded(e)
    out = []
    for m in "ABC":
        M = [[r, j if j < e["nv"] else j - e["nv"] + nv, v] for r, j, v in e[m]]
        if e["nc"] <= 1:
            M += [[i, e["nv"], "0"] for i in range(len(M), 2)]
        out.append(M)
    return out


def deviations(rng, s, n, cells):
    """lists of deviations; after each, how the claimed values are chosen: the true ones, or those that fit"""
    nz = lambda: next(v for v in iter(s, None) if v not in ("0", "1"))
    out = [([], "true")]
    lo, lm = log2(n), log2(cells)
    for k in ("row", "col"):
        look = {"site": "looked." + k, "how": rng.choice(("add", "set", "mul")), "v": rng.choice((nz(), "1", "0")), "i": rng.randrange(3 * n)}
        out.append(([look], "fit"))
        look = dict(look, i=rng.randrange(3 * n), how="add", v=rng.choice((nz(), "1")))
        out.append(([look], "fit"))
        out.append(([dict(look)], "true"))
        for i in rng.sample(range(8), 3):
            out.append(([dict(look), {"site": "balance." + k, "i": i}], "fit"))
        out.append(([{"site": "claims." + k, "how": "mul", "v": (v := nz()), "i": 0}, {"site": "claims." + k, "how": "mul", "v": v, "i": 7}], "true"))
        a, b = rng.choice(((0, 4), (0, 5), (0, 6), (1, 7), (2, 7), (3, 7), (1, 2), (4, 6)))
        out.append(([{"site": "claims." + k, "how": "move", "v": nz(), "i": a, "k": b}], "true"))
        a, b = rng.choice(((0, 1), (0, 2), (4, 1), (5, 2), (6, 3), (4, 7)))
        v = nz()
        out.append(([{"site": "claims." + k, "how": "mul", "v": v, "i": a}, {"site": "claims." + k, "how": "mul", "v": v, "i": b}], "true"))
    for name, np, l in (("ops", 12, lo), ("mem", 4, lm)):
        for i in range(l):
            j = rng.randrange(np)
            out.append(([{"site": "%s.%d" % (name, i), "how": "move", "v": nz(), "i": j, "k": np + j}], "true"))
        for j in rng.sample(range(np), 4):
            out.append(([{"site": name + ".last", "how": "move", "v": nz(), "i": j, "k": np + j}], "true"))
        out.append(([{"site": name + ".last", "how": "add", "v": nz(), "i": rng.randrange(2 * np)}], "true"))
    for _ in range(3):
        j = rng.randrange(6)
        a, b = rng.sample(range(3), 2)
        out.append(([{"site": "ops.dots", "how": "move", "v": nz(), "i": 6 * a + j, "k": 6 * b + j}], "true"))
    j = rng.randrange(3)
    out.append(([{"site": "halves", "how": "shift", "v": nz(), "i": 2 * j, "k": 2 * j + 1}], "true"))
    out.append(([{"site": "halves", "how": "add", "v": nz(), "i": rng.randrange(6)}], "fit"))
    out.append(([{"site": "halves", "how": "add", "v": nz(), "i": rng.randrange(6)}], "true"))
    for k, m in (("looked", 6), ("ops", 15), ("mem", 2)):
        out.append(([{"site": "open." + k, "how": "add", "v": nz(), "i": rng.randrange(m)}], "true"))
        out.append(([{"site": "open." + k + ".claim", "how": "add", "v": nz(), "i": 0}], "true"))
    return out


def forged_traces(c, drv, n):
    rng = c.rng
    s = Src(rng)
    gens = Gens(drv)
    reqs = []
    for e in committed(rng, n):
        sysm = {k: e[k] for k in SYS}
        nc, nv = padded(e)
        dense = lambda k: [hx(rng.randrange(2, P)) for _ in range(k)]
        vec = lambda k: dense(k) if rng.random() < .8 else s.vec(k)
        base = dict(sysm, nnz=e["nnz"], seed=s(), rx=vec(log2(nc)), ry=vec(log2(2 * nv)))
        M, N, cells = entries(e), p2(max(2, e["nnz"])), max(nc, 2 * nv)
        p = [dict(base, op="eval_p")]
        for d, how in deviations(rng, s, N, cells):
            p.append(dict(op="forge_p", M=M, n=N, cells=cells, bend=d, how=how, seed=base["seed"], rx=base["rx"], ry=base["ry"]))
        reqs.append(p)
    first = vt.drive_parallel(drv, reqs)
    second = []
    for p in first:
        h = p[0]
        q = []
        for f in p[1:]:
            if f.get("ok") and h.get("ok"):
                q.append({"op": "eval_v", "nnz": h["nnz"], "psizes": h["psizes"], "seed": h["seed"], "rx": h["rx"], "ry": h["ry"], "comm": h["comm"],
                          "evals": f["evals"] if f["how"] == "fit" else h["evals"], "proof": f["proof"], "pf": bc.parse(bc.EVALP, f["proof"]), "honest": not f["bend"],
                          **{k: h[k] for k in SYS}})
        second.append(q)
    done = vt.drive_parallel(drv, [q for q in second if q])
    t = {"forged": 0, "in step": 0, "accepted": 0}
    for q in done:
        dress_snark(gens, q)
        for e in q:
            t["forged"] += 1
            if e.pop("honest"):
                t["in step"] += bool(e.get("ok"))
            else:
                t["accepted"] += bool(e.get("ok"))
    vt.log(t)
    c.cov["deviating provers"] = t
    out = []
    for q in done:
        q = slim(q)
        out += [q[i:i + 12] for i in range(0, len(q), 12)]
    return out


def models(c):
    inv = ["ReadsAreTrue", "Fingerprints", "Noticed", "Lookup", "CellAt", "Padded", "Joined"]
    for cells, ops, mats in c.n([(2, 2, 2), (4, 2, 1)], [(2, 2, 3), (4, 2, 2), (2, 4, 2), (4, 2, 3)]):
        c.model("MC_Snark", "memory of %d cells, %d matrices of %d entries" % (cells, mats, ops), deadlock=False, invariants=inv,
                constants={"P": 11, "BIG": False, "NB": 13, "Cells": cells, "Ops": ops, "Mats": mats})


def c17(c):
    models(c)
    drv, bt = vt.build("full", "drv_proto")
    c.cov["build_s"] = round(bt, 1)
    done = snark_traces(c, drv, c.n(15, 300), 15, c.n(3, 4))
    done += forged_traces(c, drv, c.n(5, 100))
    vt.log(tally(c, done))
    if c.trace("TraceProto", done, "committed circuits and their proofs", constants=CONST):
        flip(c, done, "committed circuits and their proofs")
