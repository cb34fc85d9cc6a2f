"""Constraint systems of the circuits, in the form the specification reads them."""
import gc, json, os, sys
import circom
from circom import LC, QD, EX, CircomError, Unsupported, SECP_P, flat
import vt

CIRC = os.path.join(vt.REPO, "packages/circuits")
LIB = os.path.join(vt.VERIF, "circomlib")
Q = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
FILES = {"Poseidon": "poseidon/poseidon.circom",
         "Secp256k1AddComplete": "eff_ecdsa_membership/secp256k1/add.circom",
         "Secp256k1AddIncomplete": "eff_ecdsa_membership/secp256k1/add.circom",
         "Secp256k1Double": "eff_ecdsa_membership/secp256k1/double.circom",
         "Secp256k1Mul": "eff_ecdsa_membership/secp256k1/mul.circom",
         "K": "eff_ecdsa_membership/secp256k1/mul.circom",
         "EfficientECDSA": "eff_ecdsa_membership/eff_ecdsa.circom",
         "EfficientECDSAToAddr": "eff_ecdsa_membership/eff_ecdsa_to_addr.circom",
         "MerkleTreeInclusionProof": "eff_ecdsa_membership/tree.circom",
         "PubKeyMembership": "eff_ecdsa_membership/pubkey_membership.circom",
         "AddrMembership": "eff_ecdsa_membership/addr_membership.circom",
         "PubkeyToAddress": "eff_ecdsa_membership/to_address/zk-identity/eth.circom",
         "FlattenPubkey": "eff_ecdsa_membership/to_address/zk-identity/eth.circom",
         "Keccak": "eff_ecdsa_membership/to_address/vocdoni-keccak/keccak.circom"}


def scaling(n, p, q):
    """literals of the 256-bit circuit to those of its n-bit likeness"""
    h = n // 2
    m = {}

    def pair(big, small):
        m[big] = small
        m[big >> 128] = small >> h
        m[big & ((1 << 128) - 1)] = small & ((1 << h) - 1)
    for d in (-1, 0, 1):
        pair(SECP_P + d, p + d)
        pair(Q + d, q + d)
        pair(2 * Q - (1 << 256) + d, 2 * q - (1 << n) + d)
        m[(1 << 256) - Q + d] = (1 << n) - q + d
        m[(1 << 256) - SECP_P + d] = (1 << n) - p + d
        m[(1 << 256) + d] = (1 << n) + d
        m[(1 << 128) + d] = (1 << h) + d

    def lit(v):
        if v in m and v > 1 << 20:
            return m[v]
        for big, small in ((128, h), (256, n), (512, 2 * n)):
            if abs(v - big) <= 16:
                return small + v - big
        if v > 1 << 64:
            raise Unsupported("literal %x in a scaled circuit" % v)
        return v
    return lit


def load(template, args=(), p=SECP_P, literal=None, overrides=None, named=True):
    """the circuit, or None and the reason when the text is not a circuit"""
    gc.disable()
    f = os.path.join(CIRC, FILES[template])
    pr = circom.Program(f, LIB, literal)
    pr.overrides = overrides or {}
    return pr.build(template, list(args), p, named)


# ------------------------------------------------------------------ in steps
def terms(lc):
    if type(lc) is int:
        return [[0, lc]] if lc else []
    return ([[0, lc.c]] if lc.c else []) + [[w, c] for w, c in sorted(lc.d.items())]


def wires_of(c):
    s = set()
    for x in c:
        s.update(x.d)
    return s


def steps(R, keep=True):
    """an order to solve the constraints in; with the wires still of use after each step, or else the last
    step that uses each wire"""
    p = R.p
    cons = [tuple(LC({}, x) if type(x) is int else x for x in c) for c in R.cons]
    cw = [wires_of(c) for c in cons]
    k = len(R.main_in)
    known = set(range(k + 1))
    users = {}
    for i, s in enumerate(cw):
        for w in s:
            users.setdefault(w, []).append(i)
    unk = [set(s) - known for s in cw]
    pre = [i for i in range(len(cons)) if not unk[i]]
    done = set(pre)

    def boolean(i):
        """is constraint i  b (b - 1) = 0 up to a factor, for its one wire"""
        if len(cw[i]) != 1:
            return None
        (w,) = cw[i]
        f = lambda v: ((cons[i][0].d.get(w, 0) * v + cons[i][0].c) * (cons[i][1].d.get(w, 0) * v + cons[i][1].c)
                       - (cons[i][2].d.get(w, 0) * v + cons[i][2].c)) % p
        return w if f(0) == 0 and f(1) == 0 and f(2) != 0 else None
    bools = {}
    for i in range(len(cons)):
        w = boolean(i)
        if w is not None and w not in known:
            bools.setdefault(w, i)
    opof = {w: i for i, (w, _, _) in enumerate(R.rops)}
    out = []

    def settle(ws, cs, bits):
        for w in ws:
            known.add(w)
        for i in cs:
            done.add(i)
        for w in ws:
            for i in users.get(w, ()):
                unk[i].discard(w)
                touch(i)
        out.append({"wires": ws, "cons": [[terms(x) for x in cons[i]] for i in cs], "bits": bits, "_c": cs})
    import heapq
    one, one2, few = [], [], []

    def touch(i):
        if i in done or not unk[i]:
            return
        if len(unk[i]) == 1:
            w = next(iter(unk[i]))
            if w in bools and i == bools[w]:
                return
            if w in cons[i][0].d or w in cons[i][1].d:
                heapq.heappush(one2, (opof.get(w, 0), i))
            else:
                heapq.heappush(one, (opof.get(w, 0), i))
        else:
            if cons[i][0].d == {} and all(w in bools for w in unk[i]):
                heapq.heappush(few, (0, i))
    for i in range(len(cons)):
        touch(i)

    def single(w):
        cs = [i for i in users.get(w, ()) if i not in done and unk[i] == {w}]
        settle([w], cs, False)
    last = k + 1
    hintwires = [w for w, _, c in R.rops]
    hp = 0
    while len(known) < R.nsig:
        if one:
            _, i = heapq.heappop(one)
            if i not in done and len(unk[i]) == 1:
                single(next(iter(unk[i])))
            continue
        if few:
            _, i = heapq.heappop(few)
            u = unk[i]
            if i in done or len(u) < 2:
                continue
            # a decomposition: coefficients k 2^j
            cf = {w: cons[i][2].d[w] for w in u}
            ok = False
            if not cons[i][0].d and not cons[i][0].c:
                for base in cf.values():
                    inv = pow(base, p - 2, p)
                    by = {}
                    x = base
                    order = []
                    rev = {}
                    dup = False
                    for w, c in cf.items():
                        if c in rev:
                            dup = True
                        rev[c] = w
                    if dup:
                        break
                    for _ in range(len(cf)):
                        if x not in rev or rev[x] in order:
                            break
                        order.append(rev[x])
                        x = x * 2 % p
                    if len(order) == len(cf):
                        ok = True
                        break
            if ok and all([j for j in users[w] if j not in done and unk[j] == {w}] == [bools[w]] for w in order):
                settle(order, [bools[w] for w in order] + [i], True)
            continue
        if one2:
            _, i = heapq.heappop(one2)
            if i not in done and len(unk[i]) == 1:
                w = next(iter(unk[i]))
                at = [j for j in users[w] if len(unk[j]) == 2]
                single(w)
                # w may be free here; what else narrows it (IsZero's inverse) comes at once
                for j in at:
                    if j not in done and len(unk[j]) == 1:
                        v = next(iter(unk[j]))
                        if v in cons[j][0].d or v in cons[j][1].d:
                            single(v)
            continue
        # nothing is forced: guess, bits first
        cand = None
        best = None
        for i in range(len(cons)):
            if i not in done and len(unk[i]) >= 2:
                if best is None or len(unk[i]) < best:
                    best, cand = len(unk[i]), i
        if cand is not None:
            ws = sorted(unk[cand], key=lambda w: (w not in bools, opof.get(w, 0)))
            single(ws[0])
        else:
            while hintwires[hp] in known:
                hp += 1
            single(hintwires[hp])
    assert len(done) == len(cons), (len(done), len(cons))
    # what is still of use after each step
    outw = {0} | set(range(1, k + 1))
    for v in R.routs:
        if type(v) is LC:
            outw |= set(v.d)
    if not keep:
        last = {}
        for i, st in enumerate(out):
            for j in st.pop("_c"):
                for w in cw[j]:
                    last[w] = i
        for w in outw:
            last[w] = len(out)
        return [[terms(x) for x in cons[i]] for i in pre], out, last
    need = set(outw)
    for st in reversed(out):
        st["keep"] = sorted(need)
        for i in st["_c"]:
            need |= cw[i]
    have = {0} | set(range(1, k + 1))
    for st in out:
        have |= set(st["wires"])
        st["keep"] = [w for w in st["keep"] if w in have]
        have = set(st["keep"])
        del st["_c"]
    return [[terms(x) for x in cons[i]] for i in pre], out


def export(R, path, honest=(), **more):
    pre, st = steps(R)
    outs, it = {}, iter(R.routs)
    for n in R.main.outs:
        outs[n] = [terms(next(it)) for _ in flat(R.main.sig[n])]
    d = {"p": R.p, "wires": R.nsig, "ins": R.inputs_at(), "pre": pre, "steps": st, "outs": outs,
         "cons": [[terms(x) for x in c] for c in R.cons], "honest": list(honest)}
    d.update(more)
    json.dump(d, open(path, "w"), separators=(",", ":"))
    return d
