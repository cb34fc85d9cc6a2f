"""The byte form of proofs (bincode: positional, 8-byte little-endian lengths), mirrored so that proofs
can be read, altered and written back."""


class BC:
    def __init__(self, b):
        self.b, self.i = b, 0

    def take(self, n):
        if self.i + n > len(self.b):
            raise ValueError("short")
        r = self.b[self.i:self.i + n]
        self.i += n
        return r


def le(n, k=8):
    return n.to_bytes(k, "little")


# schemas: "S" scalar, "C" compressed point, ("v", s) vector, ("a", n, s) array, ("r", [(name, s), ...]) record, ("t", [s, ...]) tuple
def vec(s):
    return ("v", s)


def rec(*fs):
    return ("r", fs)


def tup(*fs):
    return ("t", fs)


def _read(s, c):
    if s == "S":
        n = int.from_bytes(c.take(8), "little")
        if n != 32:
            raise ValueError("scalar of %d bytes" % n)
        return "%x" % int.from_bytes(c.take(32), "little")
    if s == "C":
        n = int.from_bytes(c.take(8), "little")
        return c.take(n).hex()
    if s == "u":
        return int.from_bytes(c.take(8), "little")
    k = s[0]
    if k == "v":
        n = int.from_bytes(c.take(8), "little")
        if n > 1 << 20:
            raise ValueError("vector of %d" % n)
        return [_read(s[1], c) for _ in range(n)]
    if k == "a":
        return [_read(s[2], c) for _ in range(s[1])]
    if k == "r":
        return {f: _read(t, c) for f, t in s[1]}
    if k == "t":
        return [_read(t, c) for t in s[1]]
    raise ValueError(s)


def _write(s, v):
    if s == "S":
        return le(32) + le(int(v, 16), 32)
    if s == "C":
        b = bytes.fromhex(v)
        return le(len(b)) + b
    if s == "u":
        return le(v)
    k = s[0]
    if k == "v":
        return le(len(v)) + b"".join(_write(s[1], x) for x in v)
    if k == "a":
        return b"".join(_write(s[2], x) for x in v)
    if k == "r":
        return b"".join(_write(t, v[f]) for f, t in s[1])
    if k == "t":
        return b"".join(_write(t, x) for t, x in zip(s[1], v))
    raise ValueError(s)


def parse(s, h):
    c = BC(bytes.fromhex(h))
    v = _read(s, c)
    if c.i != len(c.b):
        raise ValueError("trailing bytes")
    return v


def emit(s, v):
    return _write(s, v).hex()


def places(s, v, path=()):
    """all leaves and vectors of a parsed proof: (kind, path)"""
    if s in ("S", "C", "u"):
        yield (s, path)
        return
    k = s[0]
    if k == "v":
        yield ("v", path)
        for i, x in enumerate(v):
            yield from places(s[1], x, path + (i,))
    elif k == "a":
        for i, x in enumerate(v):
            yield from places(s[2], x, path + (i,))
    elif k == "r":
        for f, t in s[1]:
            yield from places(t, v[f], path + (f,))
    elif k == "t":
        for i, t in enumerate(s[1]):
            yield from places(t, v[i], path + (i,))


def get(v, path):
    for p in path:
        v = v[p]
    return v


def put(v, path, x):
    for p in path[:-1]:
        v = v[p]
    v[path[-1]] = x


POLYS = vec(vec("S"))
LAYER = rec(("polys", POLYS), ("claims", vec("S")))
PC = vec(LAYER)
LAYERB = rec(("polys", POLYS), ("left", vec("S")), ("right", vec("S")))
PB = rec(("layers", vec(LAYERB)), ("dots", tup(vec("S"), vec("S"), vec("S"))))
DOT = rec(("delta", "C"), ("beta", "C"), ("z", vec("S")), ("z_delta", "S"), ("z_beta", "S"))
ZKSC = rec(("polys", vec("C")), ("evals", vec("C")), ("proofs", vec(DOT)))
KNOW = rec(("alpha", "C"), ("z1", "S"), ("z2", "S"))
EQ = rec(("alpha", "C"), ("z", "S"))
PROD = rec(("alpha", "C"), ("beta", "C"), ("delta", "C"), ("z", ("a", 5, "S")))
LOG = rec(("L", vec("C")), ("R", vec("C")), ("delta", "C"), ("beta", "C"), ("z1", "S"), ("z2", "S"))
R1CSP = rec(("comm_vars", vec("C")), ("sc1", ZKSC), ("claims2", tup("C", "C", "C", "C")), ("pok", tup(KNOW, PROD)), ("eq1", EQ),
            ("sc2", ZKSC), ("comm_vars_at_ry", "C"), ("open", LOG), ("eq2", EQ))
NIZK = rec(("sat", R1CSP), ("r", tup(vec("S"), vec("S"))))
COMM = rec(("batch_size", "u"), ("num_ops", "u"), ("num_mem_cells", "u"), ("ops", vec("C")), ("mem", vec("C")))
R1CSCOMM = rec(("num_cons", "u"), ("num_vars", "u"), ("num_inputs", "u"), ("comm", COMM))
SV = vec("S")
HASHP = rec(("row", tup(SV, SV, "S")), ("col", tup(SV, SV, "S")), ("val", SV), ("derefs", tup(SV, SV)), ("proof_ops", LOG), ("proof_mem", LOG), ("proof_derefs", LOG))
PRODP = rec(("row", tup("S", SV, SV, "S")), ("col", tup("S", SV, SV, "S")), ("val", tup(SV, SV)), ("proof_mem", PB), ("proof_ops", PB))
EVALP = rec(("comm_derefs", vec("C")), ("prod", PRODP), ("hash", HASHP))
SNARK = rec(("sat", R1CSP), ("evals", tup("S", "S", "S")), ("eval", EVALP))
