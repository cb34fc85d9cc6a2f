"""C14: challenges bind everything before them, in every protocol."""
import json
import bc, vt
from vt import hx
from p_poly import Src
from p_proto import CONST, SYS, dup, flip, nizk_traces, other_systems, protocol_traces, slim, some_points, some_system, sizes, tally
from p_snark import snark_traces

LBLS = ("a", "b", "ab", "Ar_claim", "begin_append_vector", "protocol-name")


def item(rng, s, pts):
    k = rng.choice(("name", "scalar", "scalar", "item", "vector", "vector", "point", "point", "pitem", "poly", "shares", "u64", "ch", "chs"))
    i = {"k": k, "l": rng.choice(LBLS)}
    if k == "name":
        i["v"] = i["l"].encode().hex()
    elif k in ("scalar", "item"):
        i["v"] = s()
    elif k == "vector":
        i["v"] = s.vec(rng.choice((0, 1, 2, 3, 3, 40)))
    elif k in ("point", "pitem"):
        i["v"] = rng.choice(pts + ["00"])
    elif k == "poly":
        i["v"] = s.vec(rng.choice((3, 4)))
    elif k == "shares":
        i["v"] = [rng.choice(pts) for _ in range(rng.choice((0, 1, 2, 3, 3, 40)))]
        i["b"] = bc.emit(bc.vec("C"), i["v"])
    elif k == "u64":
        i["v"] = rng.choice((0, 1, 2, 255, 256, 65536, rng.randrange(1 << 30)))
    elif k == "chs":
        i["v"] = rng.randrange(1, 4)
    return i


def neighbours(rng, s, pts, q):
    """sequences one step away: an item changed, moved, split, joined, dropped or repeated"""
    out = [dup(q)]
    for _ in range(6):
        v = dup(q)
        m = rng.randrange(7)
        i = rng.randrange(len(v))
        if m == 0:
            v[i] = item(rng, s, pts)
        elif m == 1:
            del v[i]
        elif m == 2:
            v.insert(i, dup(v[i]))
        elif m == 3 and i:
            v[i], v[i - 1] = v[i - 1], v[i]
        elif m == 4:
            for j, x in enumerate(v):                                # a number moves from one vector to the next
                if x["k"] == "vector" and x["v"]:
                    y = {"k": "vector", "l": x["l"], "v": x["v"][1:]}
                    v[j:j + 1] = [{"k": "vector", "l": x["l"], "v": x["v"][:1]}, y] if rng.random() < .5 else [dict(x, v=x["v"][:-1]), {"k": "scalar", "l": x["l"], "v": x["v"][-1]}]
                    break
        elif m == 5:
            for x in v:
                if x["k"] == "shares" and x["v"]:
                    x["v"] = x["v"][1:]
                    x["b"] = bc.emit(bc.vec("C"), x["v"])
                    break
        elif m == 6:                                                  # one entry of a run of them, often the last
            for x in v:
                if x["k"] in ("vector", "shares") and x["v"]:
                    j = rng.choice((0, -1, rng.randrange(len(x["v"]))))
                    x["v"][j] = s() if x["k"] == "vector" else rng.choice(pts)
                    if x["k"] == "shares":
                        x["b"] = bc.emit(bc.vec("C"), x["v"])
        if v:
            out.append(v)
    return out


ALIAS = {"item": "scalar", "pitem": "point"}


def meaning(q):
    """what a sequence says: two of the calls have two names, and the 'protocol-name' label is what names are absorbed under; an empty
    run of challenges is none"""
    return json.dumps([[ALIAS.get(x["k"], x["k"]), "" if x["k"] == "name" else x["l"], x.get("v")] for x in q])


def unique(q):
    """ends in a challenge; runs of challenges written one by one"""
    out = []
    for x in q:
        if x["k"] == "chs":
            out += [{"k": "ch", "l": x["l"]}] * x["v"]
        elif x["k"] == "poly":
            out.append(x)
        else:
            out.append(x)
    return out


def transcripts(rng, n):
    s = Src(rng)
    pts = some_points(rng, 4)
    progs = []
    for _ in range(n):
        q = [item(rng, s, pts) for _ in range(rng.randrange(1, 7))] + [{"k": "ch", "l": "c"}]
        progs.append([{"op": "tr", "items": v} for v in neighbours(rng, s, pts, q)])
    return progs


def systems(rng, n):
    s = Src(rng)
    out = []
    for _ in range(n):
        e = some_system(rng, s, *sizes(rng))
        b = {k: e[k] for k in SYS}
        v = [dup(b), dup(b)] + other_systems(rng, s, b)
        for f in ("nc", "nv", "ni"):
            o = dup(b)
            o[f] += 1
            v.append(o)
        out.append([dict(x, op="digest") for x in v])
    return out


def c14(c):
    rng = c.rng
    for r, m in c.n([(2, 2), (3, 1)], [(2, 2), (3, 1), (3, 2)]):
        c.model("MC_Transcript", "all histories of %d rounds with %d messages" % (r, m), deadlock=False, invariants=["Honest", "Lossy", "Depends", "Shape"],
                constants={"P": 7, "BIG": False, "Rounds": r, "MaxMsgs": m})
    drv, bt = vt.build("full", "drv_proto")
    c.cov["build_s"] = round(bt, 1)
    done = vt.drive_parallel(drv, transcripts(rng, c.n(150, 3000)))
    for p in done:
        p.append({"op": "trs", "seqs": [meaning(unique(e["items"])) for e in p], "logs": [json.dumps(e["log"]) for e in p], "ok": True, "log": []})
    dg = vt.drive_parallel(drv, systems(rng, c.n(40, 400)))
    done += [[{"op": "digests", "sys": [{k: e[k] for k in SYS} for e in p], "digest": [e["digest"] for e in p], "ok": True, "log": []}] for p in dg]
    done = [slim(p) for p in done]
    done += protocol_traces(c, drv, ("know", "eq", "prod", "dot", "log", "open", "zkq", "zkc"), c.n(64, 800), 1, 10 ** 6)
    done += nizk_traces(c, drv, c.n(30, 300), 0, 1, 1, wasm=.3)
    done += snark_traces(c, drv, c.n(6, 60), 0, 1)
    vt.log(tally(c, done))
    if c.trace("TraceProto", done, "transcripts", constants=CONST):
        flip(c, done[-40:], "transcripts")
