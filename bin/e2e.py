"""A circuit as circom's output files: the constraint system as an .r1cs file, and a witness generator that
takes the inputs as the library hands them over and writes a .wtns file.

As a command: e2e.py <mode> <generator file>, the inputs as JSON on the standard input, the witness on the
standard output.  Modes: honest - ends with status 1 when an input is missing or a constraint does not hold;
cheat - the values its computation comes to, whether or not they satisfy the constraints."""
import gc, json, pickle, sys
import circom
from circom import CircomError, LC

LE4 = lambda n: n.to_bytes(4, "little")
LE8 = lambda n: n.to_bytes(8, "little")
LE32 = lambda n: n.to_bytes(32, "little")


def order(R):
    """wire of the file -> wire of R: the constant, outputs, public inputs, the others"""
    if R.main.outs:
        raise CircomError("main has outputs")
    at, k = {}, 1
    for n in R.main.ins:
        size = len(circom.flat(R.main.sig[n]))
        at[n] = range(k, k + size)
        k += size
    pub = [w for n in R.main.ins if n in R.public for w in at[n]]
    rest = [w for w in range(1, R.nsig) if w not in set(pub)]
    return [0] + pub + rest, len(pub), k - 1 - len(pub)


def terms(v, new):
    if type(v) is int:
        return [(0, v)] if v else []
    return sorted([(new[k], c) for k, c in v.d.items() if c] + ([(0, v.c)] if v.c and 0 not in v.d else []))


def r1cs(R):
    wires, npub, nprv = order(R)
    new = {w: i for i, w in enumerate(wires)}
    body = bytearray()
    for con in R.cons:
        for v in con:
            t = terms(v, new)
            body += LE4(len(t)) + b"".join(LE4(w) + LE32(c % R.p) for w, c in t)
    head = LE4(32) + LE32(R.p) + LE4(R.nsig) + LE4(0) + LE4(npub) + LE4(nprv) + LE8(R.nsig) + LE4(len(R.cons))
    labels = b"".join(LE8(i) for i in range(R.nsig))
    out = b"r1cs" + LE4(1) + LE4(3)
    for k, s in ((2, bytes(body)), (1, head), (3, labels)):
        out += LE4(k) + LE8(len(s)) + s
    return out, npub


def wtns(vals, p):
    return (b"wtns" + LE4(2) + LE4(2) + LE4(1) + LE8(40) + LE4(32) + LE32(p) + LE4(len(vals)) + LE4(2) + LE8(32 * len(vals)) +
            b"".join(LE32(v) for v in vals))


def save(R, path):
    gc.disable()
    R.cons
    keep = (R.p, R.nsig, [(n, len(circom.flat(R.main.sig[n]))) for n in R.main.ins], R.rops, R.cons, order(R)[0])
    with open(path, "wb") as f:
        pickle.dump(keep, f, protocol=5)


def number(x):
    if isinstance(x, dict) and set(x) == {"n"}:
        return int(x["n"], 16)
    if isinstance(x, (int, str)):
        return int(x)
    raise CircomError("not a number: %r" % (x,))


def numbers(x):
    return [z for y in x for z in numbers(y)] if isinstance(x, list) else [number(x)]


def generate(gen, inputs, mode):
    p, nsig, ins, rops, cons, perm = gen
    if set(inputs) != {n for n, _ in ins}:
        raise CircomError("inputs %s for %s" % (sorted(inputs), ins))
    w, k = [0] * nsig, 1
    w[0] = 1
    for n, size in ins:
        v = numbers(inputs[n])
        if len(v) != size:
            raise CircomError("%d values for %s" % (len(v), n))
        for x in v:
            w[k] = x % p
            k += 1
    R = circom.Circuit(p)
    for x, v, _ in rops:
        w[x] = R.ev(v, w)
    if mode == "honest":
        for i, (a, b, c) in enumerate(cons):
            if (R.ev(a, w) * R.ev(b, w) - R.ev(c, w)) % p:
                raise CircomError("constraint %d" % i)
    return wtns([w[i] for i in perm], p)


def main():
    gc.disable()
    sys.setrecursionlimit(100000)
    try:
        with open(sys.argv[2], "rb") as f:
            gen = pickle.load(f)
        text = sys.stdin.read()
    except Exception as e:
        print(e, file=sys.stderr)
        sys.exit(2)
    try:
        out = generate(gen, json.loads(text), sys.argv[1])
    except CircomError as e:
        print(e, file=sys.stderr)
        sys.exit(1)
    except Exception as e:
        print(repr(e), file=sys.stderr)
        sys.exit(2)
    sys.stdout.buffer.write(out)


if __name__ == "__main__":
    main()
