----------------------------- MODULE TraceField -----------------------------
(* Binds FieldMachine to recorded runs of the real field types (as TraceScalar does for scalars). *)
EXTENDS FieldMachine, TLC, Json, IOUtils
Progs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE prog, l
vars == <<regs, prog, l>>

TInit == Init /\ l = 1 /\ prog \in 1..Len(Progs)
Ev == Progs[prog].ev
e == Ev[l]
Has(k) == k \in DOMAIN e
Shows(v) ==
  /\ Has("out") /\ e.out = v /\ e.canon /\ e.arr /\ e.repr /\ e.back
  /\ e.be = BToBE(v, 32)
  /\ e.odd = FOdd(v) /\ e.even = ~FOdd(v) /\ e.zero = (v = F0)
  /\ (Has("dbg") => e.dbg = "0x" \o BToBE(v, 32))
  /\ (Has("serde") => e.serde)
  /\ (Has("high") => e.high = BLt(Half(P), v))
To(A) == A /\ Shows(regs'[e.d])
Opt(defined, A) == e.none = ~defined /\ IF e.none THEN UNCHANGED regs ELSE To(A)
Step ==
  LET op == e.op IN
  CASE op = "zero"   -> To(Zero(e.d))
    [] op = "one"    -> To(One(e.d))
    [] op \in {"raw", "u64", "wide", "random"} -> To(FromInt(e.d, e.v))
    [] op \in {"bytes", "repr"} -> Opt(Canonical(e.v), Set(e.d, e.v))
    [] op = "dec"    -> Opt(e.valid, FromInt(e.d, e.v))           \* v: the number the text denotes
    [] op = "add"    -> To(Add(e.d, e.a, e.b))
    [] op = "sub"    -> To(Sub(e.d, e.a, e.b))
    [] op = "mul"    -> To(Mul(e.d, e.a, e.b))
    [] op = "neg"    -> To(Neg(e.d, e.a))
    [] op = "double" -> To(Double(e.d, e.a))
    [] op = "square" -> To(Square(e.d, e.a))
    [] op = "cube"   -> To(Cube(e.d, e.a))
    [] op \in {"pow", "powv"} -> To(Pow(e.d, e.a, e.e))
    [] op = "pows"   -> To(PowBy(e.d, e.a, e.b))
    [] op = "invert" -> Opt(regs[e.a] # F0, Set(e.d, InverseOf(regs[e.a])))
    [] op = "sqrt"   -> IF e.none THEN SqrtNone(e.a) ELSE To(SqrtSome(e.d, e.a, e.out))
    [] op = "sqrt_ratio" -> To(SqrtRatio(e.d, e.a, e.b, e.qr, e.out))
    [] op = "batch"  -> /\ BatchInvert(e.rs) /\ e.ret = BatchResult(e.rs)
                        /\ \A i \in 1..Len(e.rs) : e.outs[i] = regs'[e.rs[i]]
    [] op = "sum"    -> To(Sum(e.d, e.rs))
    [] op = "product" -> To(Product(e.d, e.rs))
    [] op = "select" -> To(Select(e.d, e.a, e.b, e.bit))
    [] op = "eq"     -> LET q == regs[e.a] = regs[e.b] IN
                        e.res = q /\ e.ct = q /\ e.ne = ~q /\ UNCHANGED regs
    [] op = "char"   -> e.out = P /\ UNCHANGED regs
    [] OTHER -> FALSE
TNext == \/ /\ l <= Len(Ev) /\ ~Has("panic") /\ Step /\ l' = l + 1 /\ UNCHANGED prog
         \/ l = Len(Ev) + 1 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_vars
TypeOK == \A r \in Reg : IsElem(regs[r])
=============================================================================
