"""Other assignments that satisfy a circuit of full size, near the one its own hints give.

The constraints are solved in the order circuits.steps gives.  Wherever the constraints met so far leave
a choice, the choices the circuit's own hints did not make are followed to the end: each assignment found
satisfies every constraint, and what it outputs is judged by the specification."""
import random
from circom import LC
import circuits


def root(a, p):
    if a == 0:
        return [0]
    if p % 4 != 3:
        return [x for x in range(p) if x * x % p == a] if p < 5000 else []
    r = pow(a, (p + 1) // 4, p)
    return [r, p - r] if r * r % p == a else []


class Explorer:
    def __init__(self, R, rng):
        self.R, self.rng = R, rng
        self.pre, self.steps, self.last = circuits.steps(R, keep=False)
        self.p = R.p

    def form(self, t, w, u):
        """sum over t, with the coefficient of u apart"""
        c0 = c1 = 0
        for x, c in t:
            if x == u:
                c1 += c
            else:
                c0 += c * w[x]
        return c0 % self.p, c1 % self.p

    def values(self, st, w):
        """None: any value; otherwise the values the one wire of the step may have"""
        u, p = st["wires"][0], self.p
        S = None
        for c in st["cons"]:
            a0, a1 = self.form(c[0], w, u)
            b0, b1 = self.form(c[1], w, u)
            c0, c1 = self.form(c[2], w, u)
            q, l, k = a1 * b1 % p, (a0 * b1 + a1 * b0 - c1) % p, (a0 * b0 - c0) % p
            if S is not None:
                S = [v for v in S if (q * v * v + l * v + k) % p == 0]
            elif q:
                i2 = pow(2 * q, -1, p)
                S = [((r - l) * i2) % p for r in root((l * l - 4 * q * k) % p, p)]
            elif l:
                S = [-k * pow(l, -1, p) % p]
            elif k:
                S = []
        return S

    def bits(self, st, w):
        ws, p = st["wires"], self.p
        _, _, lin = st["cons"][-1]
        k = dict((x, c) for x, c in lin)[ws[0]]
        rest = sum(c * w[x] for x, c in lin if x not in self.inset(st)) % p
        t = -rest * pow(k, -1, p) % p
        out = []
        while t < 1 << len(ws) and len(out) < 4:
            out.append([(t >> j) & 1 for j in range(len(ws))])
            t += p
        return out

    def inset(self, st):
        if "_s" not in st:
            st["_s"] = set(st["wires"])
        return st["_s"]

    def options(self, i, w):
        """the values, as lists, the wires of step i may have; (True, []) when any"""
        st = self.steps[i]
        if st["bits"]:
            return False, self.bits(st, w)
        v = self.values(st, w)
        return (True, []) if v is None else (False, [[x] for x in v])

    def free(self, i, h):
        """values to try for a wire nothing constrains yet"""
        p, r = self.p, self.rng
        c = [0, 1, p - 1, (h + 1) % p, (p - h) % p, 2 * h % p, r.randrange(p)]
        return [[x] for x in dict.fromkeys(c) if x != h]

    def follow(self, i, w, vals):
        """step i takes vals; the assignments this leads to (at most a few)"""
        w = list(w)
        for x, v in zip(self.steps[i]["wires"], vals):
            w[x] = v
        changed = set(self.steps[i]["wires"])
        for j in range(i + 1, len(self.steps)):
            st = self.steps[j]
            if not any(x in changed for c in st["cons"] for f in c for x, _ in f):
                continue                       # depends on nothing that changed: keeps its values
            any_, os = self.options(j, w)
            h = [w[x] for x in st["wires"]]
            if any_ or h in os:
                continue
            if not os:
                return None
            pick = self.rng.choice(os)
            for x, v in zip(st["wires"], pick):
                if w[x] != v:
                    changed.add(x)
                w[x] = v
        return w

    def explore(self, inputs, limit=400):
        """(own assignment, index of its first constraint that fails or None, others, choices met)"""
        R = self.R
        w = R.witness(inputs)
        bad = R.failing(w)
        others, met = [], 0
        if bad is not None:
            others = self.from_scratch(w)
            w0, w = w, list(w)                 # deviate from values that hold as far as possible
            for i, st in enumerate(self.steps):
                any_, os = self.options(i, w)
                if os and [w[x] for x in st["wires"]] not in os:
                    for x, v in zip(st["wires"], os[0]):
                        w[x] = v
        else:
            w0 = w
        for i, st in enumerate(self.steps):
            if not st["bits"] and self.last.get(st["wires"][0], -1) <= i:
                continue                       # nothing later depends on it
            any_, os = self.options(i, w)
            h = [w[x] for x in st["wires"]]
            alts = self.free(i, h[0]) if any_ else [o for o in os if o != h]
            if not alts:
                continue
            met += 1
            for a in alts:
                if len(others) >= limit:
                    break
                v = self.follow(i, w, a)
                if v is not None and R.failing(v) is None:
                    others.append((i, v))
        return w0, bad, others, met

    def from_scratch(self, w, tries=3):
        """assignments for inputs whose own hints do not satisfy the circuit"""
        out = []
        if any(self.broken(c, w) for c in self.pre):
            return out
        for t in range(tries):
            v = list(w)
            ok = True
            for i, st in enumerate(self.steps):
                any_, os = self.options(i, v)
                h = [v[x] for x in st["wires"]]
                if any_ or h in os:
                    continue
                if not os:
                    ok = False
                    break
                for x, y in zip(st["wires"], self.rng.choice(os)):
                    v[x] = y
            if ok and self.R.failing(v) is None:
                out.append((-1, v))
        return out

    def broken(self, c, w):
        f = lambda t: sum(k * w[x] for x, k in t)
        return (f(c[0]) * f(c[1]) - f(c[2])) % self.p != 0

    def shapes(self):
        """every step as a constraint with its wires renamed in order, the solved one last; how many of each.
        Steps that several constraints or a decomposition determine come out as None"""
        out = {}
        for st in self.steps:
            key = None
            if not st["bits"] and len(st["cons"]) == 1:
                u = st["wires"][0]
                ren, key = {0: 0}, []
                for f in st["cons"][0]:
                    key.append(tuple(("u" if x == u else ren.setdefault(x, len(ren)), c % self.p) for x, c in f))
                key = tuple(key)
            out[key] = out.get(key, 0) + 1
        return out
