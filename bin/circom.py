"""A reader and evaluator of the subset of circom this repository uses (templates, functions, vars,
signals, components, <==, <--, ===, for / while / if, anonymous components).  Templates are turned
into Python functions that are run once per instance; what comes out is the constraint system and,
apart from it, the list of witness computations (assignments with <== and the hints of <--).

No circom compiler is installed here; circomlib is not vendored in the repository, so includes that
lead to it are answered from /verif/circomlib (written from its published definitions)."""
import os, re

SECP_P = 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f


class CircomError(Exception):
    """the circuit breaks a rule of the language (it would not compile, or no witness can be computed)"""


class Unsupported(Exception):
    """outside of the subset read here"""


# ------------------------------------------------------------------ parsing
TOK = re.compile(r"""\s+|//[^\n]*|/\*.*?\*/|(?P<num>0x[0-9a-fA-F]+|\d+)|(?P<id>[A-Za-z_$][A-Za-z0-9_$]*)|(?P<str>"[^"]*")
|(?P<op><==|==>|===|<--|-->|\*\*=|<<=|>>=|\*\*|\+\+|--|\+=|-=|\*=|/=|\\=|%=|&=|\|=|\^=|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/\\%&|^~!<>=?:;,.(){}\[\]])""", re.X | re.S)


def tokens(src, name):
    out, i = [], 0
    while i < len(src):
        m = TOK.match(src, i)
        if not m:
            raise CircomError("%s: unexpected character %r" % (name, src[i]))
        i = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
    out.append(("eof", ""))
    return out


PREC = [["||"], ["&&"], ["|"], ["^"], ["&"], ["==", "!="], ["<", ">", "<=", ">="], ["<<", ">>"], ["+", "-"], ["*", "/", "\\", "%"], ["**"]]
# circom (lang.lalrpop): || && then comparisons, then | ^ & shifts, + -, * / \ %, **
PREC = [["||"], ["&&"], ["==", "!=", "<", ">", "<=", ">="], ["|"], ["^"], ["&"], ["<<", ">>"], ["+", "-"], ["*", "/", "\\", "%"], ["**"]]


class Parser:
    def __init__(self, src, name):
        self.t, self.i, self.name = tokens(src, name), 0, name

    def err(self, m):
        raise CircomError("%s: %s near %r" % (self.name, m, " ".join(x[1] for x in self.t[max(0, self.i - 4):self.i + 4])))

    def peek(self, v=None):
        k, x = self.t[self.i]
        return (x == v and k != "str") if v is not None else (k, x)

    def take(self, v):
        if not self.peek(v):
            self.err("expected %r" % v)
        self.i += 1

    def maybe(self, v):
        if self.peek(v):
            self.i += 1
            return True
        return False

    def ident(self):
        k, x = self.t[self.i]
        if k != "id":
            self.err("expected a name")
        self.i += 1
        return x

    def file(self):
        defs, incs, main = {}, [], None
        while not self.peek()[0] == "eof":
            if self.maybe("pragma"):
                while not self.maybe(";"):
                    self.i += 1
            elif self.maybe("include"):
                k, x = self.peek()
                if k != "str":
                    self.err("expected a file name")
                self.i += 1
                incs.append(x[1:-1])
                self.take(";")
            elif self.peek("template") or self.peek("function"):
                kind = self.ident()
                while self.peek("custom") or self.peek("parallel"):
                    self.i += 1
                n = self.ident()
                self.take("(")
                ps = []
                while not self.maybe(")"):
                    ps.append(self.ident())
                    self.maybe(",")
                defs[n] = (kind, ps, self.block())
            elif self.maybe("component"):
                if self.ident() != "main":
                    self.err("expected main")
                pub = []
                if self.maybe("{"):
                    self.take("public")
                    self.take("[")
                    while not self.maybe("]"):
                        pub.append(self.ident())
                        self.maybe(",")
                    self.take("}")
                self.take("=")
                main = (pub, self.expr())
                self.take(";")
            else:
                self.err("unexpected")
        return defs, incs, main

    def block(self):
        if self.maybe("{"):
            out = []
            while not self.maybe("}"):
                out.append(self.stmt())
            return ("block", out)
        return self.stmt()

    def dims(self):
        d = []
        while self.maybe("["):
            d.append(self.expr())
            self.take("]")
        return d

    def decl(self, kind):
        items = []
        if kind == "var" and self.maybe("("):
            names = []
            while not self.maybe(")"):
                names.append(self.ident())
                self.maybe(",")
            init = self.expr() if self.maybe("=") else None
            if init is not None:
                raise Unsupported("tuple of variables")
            return [(n, [], None, None) for n in names]
        while True:
            n = self.ident()
            d = self.dims()
            op = init = None
            for o in (("=",) if kind != "signal" else ("<==", "<--")):
                if self.maybe(o):
                    op, init = o, self.expr()
            items.append((n, d, op, init))
            if not self.maybe(","):
                return items

    def simple(self):
        """declarations and assignments, without the semicolon"""
        if self.maybe("var"):
            return ("decl", "var", None, self.decl("var"))
        if self.maybe("signal"):
            io = "mid"
            if self.peek("input") or self.peek("output"):
                io = self.ident()
            if self.maybe("{"):
                while not self.maybe("}"):
                    self.i += 1
            return ("decl", "signal", io, self.decl("signal"))
        if self.maybe("component"):
            return ("decl", "comp", None, self.decl("comp"))
        for o in ("++", "--"):
            if self.maybe(o):
                return ("assign", o[0] + "=", self.expr(), ("num", 1))
        a = self.expr()
        for o in ("=", "+=", "-=", "*=", "/=", "\\=", "%=", "**=", "&=", "|=", "^=", "<<=", ">>=", "<==", "<--", "==>", "-->", "===", "++", "--"):
            if self.maybe(o):
                if o in ("++", "--"):
                    return ("assign", o[0] + "=", a, ("num", 1))
                b = self.expr()
                if o in ("==>", "-->"):
                    a, b, o = b, a, {"==>": "<==", "-->": "<--"}[o]
                return ("assign", o, a, b)
        return ("expr", a)

    def stmt(self):
        if self.peek("{"):
            return self.block()
        if self.maybe("if"):
            self.take("(")
            c = self.expr()
            self.take(")")
            a = self.block()
            b = self.block() if self.maybe("else") else None
            return ("if", c, a, b)
        if self.maybe("for"):
            self.take("(")
            i = self.simple()
            self.take(";")
            c = self.expr()
            self.take(";")
            s = self.simple()
            self.take(")")
            return ("block", [i, ("while", c, ("block", [self.block(), s]))])
        if self.maybe("while"):
            self.take("(")
            c = self.expr()
            self.take(")")
            return ("while", c, self.block())
        if self.maybe("return"):
            e = self.expr()
            self.take(";")
            return ("return", e)
        if self.maybe("assert"):
            self.take("(")
            e = self.expr()
            self.take(")")
            self.take(";")
            return ("assert", e)
        if self.maybe("log"):
            self.take("(")
            while not self.maybe(")"):
                if self.peek()[0] == "str":
                    self.i += 1
                else:
                    self.expr()
                self.maybe(",")
            self.take(";")
            return ("block", [])
        s = self.simple()
        self.take(";")
        return s

    def expr(self, lvl=-1):
        if lvl == -1:
            c = self.expr(0)
            if self.maybe("?"):
                a = self.expr()
                self.take(":")
                return ("?", c, a, self.expr())
            return c
        if lvl == len(PREC):
            return self.unary()
        a = self.expr(lvl + 1)
        while self.peek()[0] == "op" and self.peek()[1] in PREC[lvl]:
            o = self.peek()[1]
            self.i += 1
            a = ("bin", o, a, self.expr(lvl + 1))
        return a

    def unary(self):
        for o in ("-", "!", "~", "+"):
            if self.maybe(o):
                # -a ** b is -(a ** b) to no effect here: the operand of a prefix is a primary
                e = self.unary()
                return e if o == "+" else ("un", o, e)
        if self.maybe("parallel"):
            return self.unary()
        return self.post(self.prim())

    def prim(self):
        k, x = self.peek()
        if k == "num":
            self.i += 1
            return ("num", int(x, 0))
        if self.maybe("("):
            a = [self.expr()]
            while self.maybe(","):
                a.append(self.expr())
            self.take(")")
            return a[0] if len(a) == 1 else ("tuple", a)
        if self.maybe("["):
            a = [self.expr()]
            while self.maybe(","):
                a.append(self.expr())
            self.take("]")
            return ("arr", a)
        if k == "id":
            self.i += 1
            if x == "_":
                return ("under",)
            if self.peek("("):
                a = self.args()
                if self.peek("("):                       # anonymous component
                    return ("anon", x, a, self.args())
                return ("call", x, a)
            return ("name", x)
        self.err("unexpected")

    def args(self):
        self.take("(")
        a = []
        while not self.maybe(")"):
            if self.peek()[0] == "id" and self.t[self.i + 1][1] == "<==":
                n = self.ident()
                self.i += 1
                a.append(("kw", n, self.expr()))
            else:
                a.append(self.expr())
            self.maybe(",")
        return a

    def post(self, e):
        while True:
            if self.maybe("["):
                j = self.expr()
                self.take("]")
                e = ("idx", e, j)
            elif self.maybe("."):
                e = ("dot", e, self.ident())
            else:
                return e


# ------------------------------------------------------------------ values
class LC:
    __slots__ = ("d", "c")

    def __init__(self, d, c=0):
        self.d, self.c = d, c


class QD:
    """a * b + c"""
    __slots__ = ("a", "b", "c")

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class EX:
    """an expression a hint may use and a constraint may not"""
    __slots__ = ("op", "args")

    def __init__(self, op, *args):
        self.op, self.args = op, args


class Comp:
    def __init__(self, name):
        self.name, self.sig, self.ins, self.outs = name, {}, [], []


class Circuit:
    """What an instance of a template comes to: its wires (0 is the constant one), ops in the order of
    computation - (wire, value, constrained), the constraint being value = wire - and eqs, the other
    constraints (a, b, c): a * b = c."""
    def __init__(self, p):
        self.p = p
        self.nw = 1
        self.eqs = []
        self.ops = []
        self.assigned = set()
        self.names = {}
        self.kids = []

    # arithmetic of circuit values
    def add(s, a, b):
        p = s.p
        if type(a) is int and type(b) is int:
            return (a + b) % p
        if type(a) is EX or type(b) is EX:
            return EX("+", a, b)
        if type(a) is QD or type(b) is QD:
            if type(a) is QD and type(b) is QD:
                return EX("+", a, b)
            if type(b) is QD:
                a, b = b, a
            return QD(a.a, a.b, s.add(a.c, b))
        if type(a) is int:
            a, b = b, a
        if type(b) is int:
            return LC(a.d, (a.c + b) % p)
        x, y = a.d, b.d
        if len(x) < len(y):
            x, y = y, x
        d = dict(x)
        for k, v in y.items():
            n = (d.get(k, 0) + v) % p
            if n:
                d[k] = n
            else:
                d.pop(k, None)
        return LC(d, (a.c + b.c) % p) if d else (a.c + b.c) % p

    def scale(s, a, k):
        p = s.p
        k %= p
        if type(a) is int:
            return a * k % p
        if k == 0:
            return 0
        if type(a) is EX:
            return EX("*", a, k)
        if type(a) is LC:
            return LC({w: v * k % p for w, v in a.d.items()}, a.c * k % p)
        return QD(s.scale(a.a, k), a.b, s.scale(a.c, k))

    def neg(s, a):
        return s.scale(a, s.p - 1)

    def sub(s, a, b):
        if type(a) is int and type(b) is int:
            return (a - b) % s.p
        return s.add(a, s.scale(b, s.p - 1))

    def mul(s, a, b):
        if type(a) is int:
            return s.scale(b, a)
        if type(b) is int:
            return s.scale(a, b)
        if type(a) is LC and type(b) is LC:
            return QD(a, b, 0)
        return EX("*", a, b)

    def inv(s, a):
        return pow(a, s.p - 2, s.p)      # 0 for 0, as the generated witness code has it

    def div(s, a, b):
        if type(b) is int:
            if b % s.p == 0:
                if type(a) is int:
                    raise CircomError("division by zero")
            return s.scale(a, s.inv(b))
        return EX("/", a, b)

    def signed(s, a):
        return a if a <= s.p // 2 else a - s.p

    def shift(s, a, b, left):
        p = s.p
        if b > p // 2:
            return s.shift(a, p - b, not left)
        if left:
            return ((a << min(b, 4096)) & ((1 << p.bit_length()) - 1)) % p
        return a >> b

    def num(s, op, a, b):
        p = s.p
        if op == "+": return (a + b) % p
        if op == "-": return (a - b) % p
        if op == "*": return a * b % p
        if op == "/": return a * s.inv(b) % p
        if op == "\\":
            if b == 0:
                raise CircomError("division by zero")
            return a // b
        if op == "%":
            if b == 0:
                raise CircomError("division by zero")
            return a % b
        if op == "**": return pow(a, b, p)
        if op == "<<": return s.shift(a, b, True)
        if op == ">>": return s.shift(a, b, False)
        if op == "&": return (a & b) % p
        if op == "|": return (a | b) % p
        if op == "^": return (a ^ b) % p
        if op == "==": return int(a == b)
        if op == "!=": return int(a != b)
        if op == "<": return int(s.signed(a) < s.signed(b))
        if op == ">": return int(s.signed(a) > s.signed(b))
        if op == "<=": return int(s.signed(a) <= s.signed(b))
        if op == ">=": return int(s.signed(a) >= s.signed(b))
        if op == "&&": return int(a != 0 and b != 0)
        if op == "||": return int(a != 0 or b != 0)
        raise Unsupported(op)

    def bin(s, op, a, b):
        if type(a) is int and type(b) is int:
            return s.num(op, a, b)
        if type(a) is list or type(b) is list:
            raise CircomError("arithmetic on arrays")
        if op == "**" and type(b) is int:
            if b == 0: return 1
            if b == 1: return a
            if b == 2: return s.mul(a, a)
        return EX(op, a, b)

    def un(s, op, a):
        if op == "-":
            return s.neg(a)
        if type(a) is int:
            if op == "!":
                return int(a == 0)
            return (((1 << s.p.bit_length()) - 1) ^ a) % s.p
        return EX("u" + op, a)

    def cond(s, c, a, b):
        if type(c) is int:
            return a() if c else b()
        return EX("?", c, a(), b())

    def test(s, v):
        if type(v) is not int:
            raise Unsupported("a branch that depends on a signal")
        return v != 0

    # signals
    def new(s, dims, name):
        if not dims:
            w = s.nw
            s.nw += 1
            s.names[w] = name
            return w
        return [s.new(dims[1:], name + "[%d]" % i if s.named else name) for i in range(dims[0])]

    named = True

    def rd(s, x):
        if type(x) is int:
            return LC({x: 1})
        if type(x) is list:
            return [s.rd(y) for y in x]
        raise CircomError("a component used as a value")

    def at(s, a, i):
        if type(i) is not int:
            raise Unsupported("index that depends on a signal")
        if type(a) is not list:
            raise CircomError("indexing something that is not an array")
        if not i < len(a):
            raise CircomError("index out of range")
        return a[i]

    def put(s, a, i, v):
        if type(i) is not int:
            raise Unsupported("index that depends on a signal")
        if not i < len(a):
            raise CircomError("index out of range")
        a[i] = v

    def assign(s, w, v, constrain):
        if type(w) is list:
            if type(v) is not list or len(v) != len(w):
                raise CircomError("assignment of arrays of different length")
            for x, y in zip(w, v):
                s.assign(x, y, constrain)
            return
        if type(v) is list:
            raise CircomError("assignment of an array to a signal")
        if w in s.assigned:
            raise CircomError("signal %s assigned twice" % s.names.get(w))
        if constrain and type(v) is EX:
            raise CircomError("non quadratic constraint")
        s.assigned.add(w)
        s.ops.append((w, v, constrain))

    def equal(s, a, b):
        if type(a) is list or type(b) is list:
            if not (type(a) is list and type(b) is list and len(a) == len(b)):
                raise CircomError("=== of arrays of different length")
            for x, y in zip(a, b):
                s.equal(x, y)
            return
        if type(a) is EX or type(b) is EX or (type(a) is QD and type(b) is QD):
            raise CircomError("non quadratic constraint")
        s.eqs.append(s.triple(a, b))

    def triple(s, a, b):
        """the constraint a = b"""
        lc = lambda v: LC({}, v) if type(v) is int else v
        if type(b) is QD:
            a, b = b, a
        if type(a) is QD:
            return a.a, a.b, lc(s.sub(b, a.c))
        return LC({}, 0), LC({}, 1), lc(s.sub(a, b))

    # wires renamed and replaced
    def subst(s, v, m):
        t = type(v)
        if t is int:
            return v
        if t is LC:
            if len(v.d) == 1:
                (k, c), = v.d.items()
                x = m.get(k)
                if x is None:
                    return v
                if c == 1 and v.c == 0:
                    return x
                return s.add(s.scale(x, c), v.c)
            r, ch = {}, []
            for k, c in v.d.items():
                x = m.get(k)
                if x is None:
                    r[k] = c
                elif type(x) is LC and len(x.d) == 1 and x.c == 0:
                    (k2, c2), = x.d.items()
                    if k2 in r or k2 in v.d:
                        ch.append((x, c))
                    else:
                        r[k2] = c * c2 % s.p
                else:
                    ch.append((x, c))
            o = LC(r, v.c)
            for x, c in ch:
                o = s.add(o, s.scale(x, c))
            if type(o) is LC and not o.d:
                return o.c
            return o
        if t is QD:
            return s.add(s.mul(s.subst(v.a, m), s.subst(v.b, m)), s.subst(v.c, m))
        return EX(v.op, *[s.subst(x, m) for x in v.args])

    def sort(s):
        """the ops, each after those it depends on"""
        need, users = [], {}
        for i, (w, v, _) in enumerate(s.ops):
            acc = set()
            s.wires(v, acc)
            acc.discard(0)
            need.append(len(acc))
            for x in acc:
                users.setdefault(x, []).append(i)
        ready = [i for i in range(len(s.ops)) if need[i] == 0]
        order = []

        def have(w):
            for i in users.get(w, ()):
                need[i] -= 1
                if need[i] == 0:
                    ready.append(i)
        for w in s.main_in:
            have(w)
        k = 0
        while k < len(ready):
            i = ready[k]
            k += 1
            order.append(i)
            have(s.ops[i][0])
        if len(order) != len(s.ops):
            stuck = [s.names.get(s.ops[i][0], s.ops[i][0]) for i in range(len(s.ops)) if need[i] > 0]
            raise CircomError("no value can be computed for signals %s" % stuck[:5])
        s.ops = [s.ops[i] for i in order]

    def compact(s):
        """replace every wire that is constrained to equal another wire or a constant; keep the ports"""
        s.sort()
        m, ops = {}, []
        for w, v, c in s.ops:
            v = s.subst(v, m)
            if c and (type(v) is int or (type(v) is LC and len(v.d) == 1 and v.c == 0 and next(iter(v.d.values())) == 1)):
                m[w] = v
            else:
                ops.append((w, v, c))
        s.ops = ops
        lc = lambda v: LC({}, v) if type(v) is int else v
        eqs = []
        for a, b, c in s.eqs:
            a, b, c = s.subst(a, m), s.subst(b, m), s.subst(c, m)
            if type(a) is int or type(b) is int:
                d = s.sub(c, s.mul(a, b))
                if type(d) is int and d == 0:
                    continue
                eqs.append((LC({}, 0), LC({}, 1), lc(d)))
            else:
                eqs.append((a, b, lc(c)))
        s.eqs = eqs
        # the ports keep a wire: inputs are never replaced, outputs may stand for something else
        s.outval = [m.get(w, LC({w: 1})) for w in s.main_out]
        s.nsig = 1
        ren = {0: 0}
        for w in s.main_in:
            ren[w] = s.nsig
            s.nsig += 1
        nm = {}
        for w, _, _ in ops:
            ren[w] = s.nsig
            nm[s.nsig] = s.names.get(w)
            s.nsig += 1
        s.alias = m
        s.ren = ren
        rl = lambda v: s.rename(v, ren)
        s.rops = [(ren[w], rl(v), c) for w, v, c in ops]
        s.reqs = [(rl(a), rl(b), rl(c)) for a, b, c in eqs]
        s.routs = [rl(v) for v in s.outval]
        s.rnames = nm

    def rename(s, v, ren):
        t = type(v)
        if t is int:
            return v
        if t is LC:
            return LC({ren[k]: c for k, c in v.d.items()}, v.c)
        if t is QD:
            return QD(s.rename(v.a, ren), s.rename(v.b, ren), s.rename(v.c, ren))
        return EX(v.op, *[s.rename(x, ren) for x in v.args])

    def include(s, frag, c, label):
        """an instance of a compacted fragment: c gets the ports"""
        ren = {0: 0}
        k = 1
        for n in frag.main.ins:
            c.ins.append(n)
            c.sig[n] = s.new(shape(frag.main.sig[n]), label + n)
            for w in flat(c.sig[n]):
                ren[k] = w
                k += 1
        base = s.nw
        s.nw += frag.nsig - k
        for j in range(k, frag.nsig):
            ren[j] = base + j - k
            if s.named:
                s.names[base + j - k] = label + (frag.rnames.get(j) or "?")
        rl = lambda v: s.rename(v, ren)
        for w, v, q in frag.rops:
            s.ops.append((ren[w], rl(v), q))
        for a, b, q in frag.reqs:
            s.eqs.append((rl(a), rl(b), rl(q)))
        outs = iter(frag.routs)
        for n in frag.main.outs:
            c.outs.append(n)
            c.sig[n] = s.new(shape(frag.main.sig[n]), label + n)
            for w in flat(c.sig[n]):
                s.ops.append((w, rl(next(outs)), True))
                s.assigned.add(w)
        s.kids.append(c)

    # the constraints of the whole, after compaction
    @property
    def cons(s):
        if not hasattr(s, "_cons"):
            s._cons = [s.triple(v, LC({w: 1})) for w, v, c in s.rops if c] + list(s.reqs)
        return s._cons

    # numeric evaluation
    def ev(s, v, w):
        t = type(v)
        if t is int:
            return v
        if t is LC:
            r = v.c
            for k, c in v.d.items():
                r += c * w[k]
            return r % s.p
        if t is QD:
            return (s.ev(v.a, w) * s.ev(v.b, w) + s.ev(v.c, w)) % s.p
        if v.op == "?":
            return s.ev(v.args[1] if s.ev(v.args[0], w) else v.args[2], w)
        if v.op[0] == "u":
            return s.un(v.op[1:], s.ev(v.args[0], w))
        return s.num(v.op, s.ev(v.args[0], w), s.ev(v.args[1], w))

    def wires(s, v, acc):
        t = type(v)
        if t is LC:
            acc.update(v.d)
        elif t is QD:
            for x in (v.a, v.b, v.c):
                s.wires(x, acc)
        elif t is EX:
            for x in v.args:
                s.wires(x, acc)

    def witness(s, inputs):
        """inputs: name -> number or nested lists; the values of the wires left after compaction"""
        w = [0] * s.nsig
        w[0] = 1
        k = 1
        for n in s.main.ins:
            sh, v = flat(s.main.sig[n]), flat(inputs[n])
            if len(sh) != len(v):
                raise CircomError("input %s has the wrong length" % n)
            for x in v:
                w[k] = x % s.p
                k += 1
        ev = s.ev
        for x, v, _ in s.rops:
            w[x] = ev(v, w)
        return w

    def failing(s, w):
        """the first constraint the values do not satisfy, or None"""
        ev, p = s.ev, s.p
        for i, (a, b, c) in enumerate(s.cons):
            if (ev(a, w) * ev(b, w) - ev(c, w)) % p:
                return i
        return None

    def outputs(s, w):
        it = iter(s.routs)
        rec = lambda x: [rec(y) for y in x] if type(x) is list else s.ev(next(it), w)
        return {n: rec(s.main.sig[n]) for n in s.main.outs}

    def inputs_at(s):
        """name -> wires of the inputs"""
        it = iter(range(1, 10 ** 9))
        rec = lambda x: [rec(y) for y in x] if type(x) is list else next(it)
        return {n: rec(s.main.sig[n]) for n in s.main.ins}


def flat(x):
    return [z for y in x for z in flat(y)] if type(x) is list else [x]


def shape(x):
    return [len(x)] + shape(x[0]) if type(x) is list and x else ([0] if type(x) is list else [])


# ------------------------------------------------------------------ translation to Python
class Gen:
    def __init__(self, prog, name, kind, params):
        self.prog, self.kind, self.out, self.ind, self.n = prog, kind, [], 1, 0
        self.name = name
        self.scopes = [{}]
        for q in params:
            self.scopes[0][q] = ("var", "v_" + q)

    def emit(self, s):
        self.out.append("    " * self.ind + s)

    def look(self, n):
        for sc in reversed(self.scopes):
            if n in sc:
                return sc[n]
        raise CircomError("%s: unknown name %s" % (self.name, n))

    def bind(self, n, kind):
        self.n += 1
        py = "%s_%s_%d" % (kind[0], n.replace("$", "S"), self.n)
        self.scopes[-1][n] = (kind, py)
        return py

    # a place: (kind, python expression); kind in var, signal, comp
    def place(self, e):
        if e[0] == "name":
            return self.look(e[1])
        if e[0] == "idx":
            k, a = self.place(e[1])
            return k, "R.at(%s, %s)" % (a, self.ex(e[2]))
        if e[0] == "dot":
            k, a = self.place(e[1])
            if k != "comp":
                raise CircomError("%s: . on something that is not a component" % self.name)
            return "signal", "sg(%s, %r)" % (a, e[2])
        if e[0] in ("call", "anon", "arr"):
            return "var", self.ex(e)
        raise CircomError("%s: not a place" % self.name)

    def ex(self, e):
        k = e[0]
        if k == "num":
            return str(self.prog.lit(e[1], self.name))
        if k in ("name", "idx", "dot"):
            kind, py = self.place(e)
            return "R.rd(%s)" % py if kind == "signal" else py
        if k == "arr":
            return "[%s]" % ", ".join(self.ex(x) for x in e[1])
        if k == "bin":
            a, b = self.ex(e[2]), self.ex(e[3])
            f = {"+": "add", "-": "sub", "*": "mul", "/": "div"}.get(e[1])
            if f:
                return "R.%s(%s, %s)" % (f, a, b)
            return "R.bin(%r, %s, %s)" % (e[1], a, b)
        if k == "un":
            return "R.un(%r, %s)" % (e[1], self.ex(e[2]))
        if k == "?":
            return "R.cond(%s, lambda: %s, lambda: %s)" % (self.ex(e[1]), self.ex(e[2]), self.ex(e[3]))
        if k == "call":
            kind = self.prog.kind(e[1])
            a = ", ".join(self.ex(x) for x in e[2])
            if kind == "template":
                raise CircomError("%s: template %s used as a value" % (self.name, e[1]))
            return "call(%r, [%s])" % (e[1], a)
        if k == "anon":
            pos = [x for x in e[3] if x[0] != "kw"]
            kws = [x for x in e[3] if x[0] == "kw"]
            return "anon(%r, [%s], [%s], {%s})" % (e[1], ", ".join(self.ex(x) for x in e[2]), ", ".join(self.ex(x) for x in pos),
                                                 ", ".join("%r: %s" % (x[1], self.ex(x[2])) for x in kws))
        raise CircomError("%s: unexpected expression %s" % (self.name, k))

    def inst(self, e, label):
        if e[0] != "call" or self.prog.kind(e[1]) != "template":
            raise Unsupported("component that is not an instance")
        return "inst(%r, [%s], %s)" % (e[1], ", ".join(self.ex(x) for x in e[2]), label)

    def st(self, s):
        k = s[0]
        if k == "block":
            self.scopes.append({})
            for x in s[1]:
                self.st(x)
            self.scopes.pop()
            if not s[1]:
                self.emit("pass")
        elif k == "decl":
            _, kind, io, items = s
            for n, dims, op, init in items:
                d = "[%s]" % ", ".join(self.ex(x) for x in dims)
                if kind == "var":
                    v = self.ex(init) if init is not None else None
                    py = self.bind(n, "var")
                    self.emit("%s = %s" % (py, "copy(%s)" % v if v is not None else "zeros(%s)" % d))
                elif kind == "signal":
                    v = self.ex(init) if init is not None else None
                    py = self.bind(n, "signal")
                    self.emit("%s = C.sig[%r] = R.new(%s, pre + %r)" % (py, n, d, n))
                    if io == "input":
                        self.emit("C.ins.append(%r)" % n)
                    elif io == "output":
                        self.emit("C.outs.append(%r)" % n)
                    if v is not None:
                        self.emit("R.assign(%s, %s, %r)" % (py, v, op == "<=="))
                else:
                    py = self.bind(n, "comp")
                    if init is not None:
                        self.emit("%s = %s" % (py, self.inst(init, repr(n))))
                    else:
                        self.emit("%s = holes(%s)" % (py, d))
        elif k == "assign":
            _, op, a, b = s
            if op == "===":
                self.emit("R.equal(%s, %s)" % (self.ex(a), self.ex(b)))
            elif op in ("<==", "<--"):
                if a[0] == "under":
                    self.emit(self.ex(b))
                    return
                if a[0] == "tuple":
                    self.emit("tup = %s" % self.ex(b))
                    for i, x in enumerate(a[1]):
                        if x[0] != "under":
                            kind, py = self.place(x)
                            self.emit("R.assign(%s, tup[%d], %r)" % (py, i, op == "<=="))
                    return
                kind, py = self.place(a)
                if kind != "signal":
                    if kind == "var" and op == "<==":
                        raise CircomError("%s: <== to a variable" % self.name)
                    raise CircomError("%s: %s to something that is not a signal" % (self.name, op))
                self.emit("R.assign(%s, %s, %r)" % (py, self.ex(b), op == "<=="))
            else:
                root = a
                while root[0] == "idx":
                    root = root[1]
                kind, py = self.place(root)
                if kind == "comp":
                    if op != "=":
                        raise CircomError("%s: %s to a component" % (self.name, op))
                    v = self.inst(b, repr(root[1]))
                elif kind == "signal":
                    raise CircomError("%s: = to a signal" % self.name)
                else:
                    v = self.ex(b)
                    if op != "=":
                        v = self.ex(("bin", op[:-1], a, b))
                    v = "copy(%s)" % v
                if a[0] == "name":
                    self.emit("%s = %s" % (py, v))
                else:
                    self.emit("R.put(%s, %s, %s)" % (self.place(a[1])[1], self.ex(a[2]), v))
        elif k == "if":
            self.emit("if R.test(%s):" % self.ex(s[1]))
            self.sub(s[2])
            if s[3] is not None:
                self.emit("else:")
                self.sub(s[3])
        elif k == "while":
            self.emit("while R.test(%s):" % self.ex(s[1]))
            self.sub(s[2])
        elif k == "return":
            self.emit("return %s" % self.ex(s[1]))
        elif k == "assert":
            self.emit("must(%s)" % self.ex(s[1]))
        elif k == "expr":
            if s[1][0] == "anon":
                self.emit(self.ex(s[1]))
            else:
                self.emit("pass")
        else:
            raise Unsupported(k)

    def sub(self, s):
        self.ind += 1
        self.scopes.append({})
        self.emit("pass")
        self.st(s)
        self.scopes.pop()
        self.ind -= 1


class Program:
    """the definitions reachable from one file"""
    def __init__(self, path, lib, literal=None):
        self.defs, self.code, self.lib, self.main = {}, {}, lib, None
        self.cache, self.calls, self.origin = {}, {}, {}
        self.literal = literal or (lambda v: v)
        self.seen = set()
        self.load(os.path.abspath(path), True)

    def lit(self, v, where=None):
        return v if self.origin.get(where, "").startswith(self.lib) else self.literal(v)

    def resolve(self, base, inc):
        q = os.path.normpath(os.path.join(os.path.dirname(base), inc))
        m = re.search(r"circomlib/circuits/(.*)$", q)
        if m:
            return os.path.join(self.lib, m.group(1))
        return q

    def load(self, path, top=False):
        if path in self.seen:
            return
        self.seen.add(path)
        if not os.path.exists(path):
            if path.startswith(self.lib):
                raise Unsupported("circomlib file %s" % path)
            raise CircomError("no file %s" % path)
        defs, incs, main = Parser(open(path).read(), path).file()
        for n, d in defs.items():
            if n in self.defs:
                raise CircomError("%s defined twice" % n)
            self.defs[n] = d
            self.origin[n] = path
        if top:
            self.main = main
        for i in incs:
            self.load(self.resolve(path, i))

    def kind(self, n):
        if n not in self.defs:
            raise CircomError("no template or function %s" % n)
        return self.defs[n][0]

    def compile(self, n):
        if n in self.code:
            return self.code[n]
        kind, params, body = self.defs[n]
        g = Gen(self, n, kind, params)
        g.st(body)
        src = "def f(R, C, pre%s, inst, anon, call, sg, copy, zeros, holes, must):\n    pass\n%s\n" % (
            "".join(", v_" + q for q in params), "\n".join(g.out))
        env = {}
        exec(compile(src, n, "exec"), env)
        self.code[n] = (env["f"], len(params))
        return self.code[n]

    def build(self, template, args, p=SECP_P, named=True):
        """the compacted circuit of one instance"""
        cache = self.cache.setdefault(p, {})
        freeze = lambda v: tuple(freeze(x) for x in v) if type(v) is list else v
        key = (template, freeze(args))
        if key in cache:
            if cache[key] is None:
                raise CircomError("template %s contains itself" % template)
            return cache[key]
        if self.kind(template) != "template":
            raise CircomError("%s is not a template" % template)
        cache[key] = None
        R = Circuit(p)
        R.named = named
        stand_in = getattr(self, "overrides", {}).get(template)
        if stand_in:
            cache[key] = self.stand_in(R, template, args, stand_in)
            return cache[key]
        copy = lambda v: [copy(x) for x in v] if type(v) is list else v
        zeros = lambda d: [zeros(d[1:]) for _ in range(d[0])] if d else 0
        holes = lambda d: [holes(d[1:]) for _ in range(d[0])] if d else None

        def must(v):
            if type(v) is int and v == 0:
                raise CircomError("assertion failed")

        def sg(c, n):
            if c is None:
                raise CircomError("use of a component before it is created (.%s)" % n)
            if type(c) is list:
                raise CircomError("missing index of a component (.%s)" % n)
            if n not in c.sig:
                raise CircomError("no signal %s in %s" % (n, c.name))
            return c.sig[n]

        def call(n, a):
            if self.kind(n) != "function":
                raise CircomError("%s is not a function" % n)
            fz = (n, freeze(a)) if all(type(x) is int for x in a) else None
            if fz in self.calls and fz is not None:
                return self.calls[fz]
            f, k = self.compile(n)
            if k != len(a):
                raise CircomError("%s takes %d arguments" % (n, k))
            r = f(R, None, "", *[copy(x) for x in a], inst, anon, call, sg, copy, zeros, holes, must)
            if fz is not None:
                self.calls[fz] = r
            return r

        def inst(n, a, label):
            frag = self.build(n, a, p, named)
            c = Comp(n)
            R.include(frag, c, label + "." if named else "")
            return c

        def anon(n, a, pos, kw):
            c = inst(n, a, "anon%d" % len(R.kids))
            if kw:
                pos = [kw[x] for x in c.ins]
            if len(pos) != len(c.ins):
                raise CircomError("%s takes %d inputs" % (n, len(c.ins)))
            for x, v in zip(c.ins, pos):
                R.assign(c.sig[x], v, True)
            outs = [R.rd(c.sig[x]) for x in c.outs]
            return outs[0] if len(outs) == 1 else outs
        f, k = self.compile(template)
        if k != len(args):
            raise CircomError("%s takes %d arguments" % (template, k))
        C = R.main = Comp(template)
        f(R, C, "", *[copy(x) for x in args], inst, anon, call, sg, copy, zeros, holes, must)
        R.main_in = [w for n in C.ins for w in flat(C.sig[n])]
        R.main_out = [w for n in C.outs for w in flat(C.sig[n])]
        for w in R.main_in:
            if w in R.assigned:
                raise CircomError("input %s assigned inside" % R.names.get(w))
        for c in R.kids:
            for n in c.ins:
                for w in flat(c.sig[n]):
                    if w not in R.assigned:
                        raise CircomError("input %s of component %s is never assigned" % (n, c.name))
        for w in R.main_out:
            if w not in R.assigned:
                raise CircomError("output of %s never assigned" % template)
        R.compact()
        cache[key] = R
        return R

    def stand_in(self, R, template, args, f):
        """a template of the same ports whose outputs are f of its inputs"""
        kind, params, body = self.defs[template]
        g = Gen(self, template, kind, params)
        for st in body[1]:                       # the declarations the ports' sizes depend on
            if st[0] == "decl" and st[1] == "var":
                g.st(st)
            if st[0] == "decl" and st[1] == "signal" and st[2] in ("input", "output"):
                g.st(("decl", "signal", st[2], [(n, d, None, None) for n, d, _, _ in st[3]]))
        src = "def f(R, C, pre%s, copy, zeros):\n    pass\n%s\n" % ("".join(", v_" + q for q in params), "\n".join(g.out))
        env = {}
        exec(compile(src, template, "exec"), env)
        C = R.main = Comp(template)
        copy = lambda v: [copy(x) for x in v] if type(v) is list else v
        zeros = lambda d: [zeros(d[1:]) for _ in range(d[0])] if d else 0
        env["f"](R, C, "", *args, copy, zeros)
        R.main_in = [w for n in C.ins for w in flat(C.sig[n])]
        R.main_out = [w for n in C.outs for w in flat(C.sig[n])]
        for w, v in zip(R.main_out, f(R, [R.rd(w) for w in R.main_in])):
            R.assign(w, v, True)
        R.compact()
        return R

    def build_main(self, p=SECP_P, named=True):
        if not self.main:
            raise CircomError("no main component")
        pub, e = self.main
        if e[0] != "call":
            raise CircomError("main is not an instance")
        args = []
        for a in e[2]:
            if a[0] != "num":
                raise Unsupported("argument of main")
            args.append(self.lit(a[1]))
        R = self.build(e[1], args, p, named)
        for n in pub:
            if n not in R.main.ins:
                raise CircomError("public signal %s is not an input" % n)
        R.public = pub
        return R
