---------------------------- MODULE TraceScalar ----------------------------
(* Binds ScalarMachine to recorded runs of the real type.  Each recorded program starts from zeroed
   registers; a step is allowed only if the specification's action explains every recorded field. *)
EXTENDS ScalarMachine, TLC, Json, IOUtils
Progs == ndJsonDeserialize(IOEnv.TRACE)       \* one program per line: [ev |-> sequence of events]
VARIABLES prog, l
vars == <<regs, prog, l>>

TInit == Init /\ l = 1 /\ prog \in 1..Len(Progs)
Ev == Progs[prog].ev
e == Ev[l]
\* what every produced value must show: bytes, canonical identity, text and serialised form
Shows(v) ==
  /\ "out" \in DOMAIN e /\ e.out = v /\ e.canon /\ e.arr
  /\ e.dbg = "0x" \o BToBE(v, 32)
  /\ e.ser = "2000000000000000" \o BToLE(v, 32)
Opt(A) == IF e.none THEN UNCHANGED regs ELSE A /\ Shows(regs'[e.d])
Step ==
  LET op == e.op IN
  CASE op = "zero"   -> Zero(e.d) /\ Shows(regs'[e.d])
    [] op = "one"    -> One(e.d) /\ Shows(regs'[e.d])
    [] op \in {"raw", "u64", "wide", "random"} -> FromInt(e.d, e.v) /\ Shows(regs'[e.d])
    [] op = "bytes"  -> e.none = ~Canonical(e.v) /\ FromBytes(e.d, e.v) /\ (e.none \/ Shows(regs'[e.d]))
    [] op = "deser"  -> /\ (Canonical(e.v) => ~e.none)       \* others: refused, or read as their residue
                        /\ IF e.none THEN UNCHANGED regs ELSE FromInt(e.d, e.v) /\ Shows(regs'[e.d])
    [] op = "add"    -> Add(e.d, e.a, e.b) /\ Shows(regs'[e.d])
    [] op = "sub"    -> Sub(e.d, e.a, e.b) /\ Shows(regs'[e.d])
    [] op = "mul"    -> Mul(e.d, e.a, e.b) /\ Shows(regs'[e.d])
    [] op = "neg"    -> Neg(e.d, e.a) /\ Shows(regs'[e.d])
    [] op = "double" -> Double(e.d, e.a) /\ Shows(regs'[e.d])
    [] op = "square" -> Square(e.d, e.a) /\ Shows(regs'[e.d])
    [] op \in {"pow", "powv"} -> Pow(e.d, e.a, e.e) /\ Shows(regs'[e.d])
    [] op = "invert" -> /\ e.none = (regs[e.a] = F0)
                        /\ Invert(e.d, e.a) /\ (e.none \/ Shows(regs'[e.d]))
    [] op = "batch"  -> /\ BatchInvert(e.rs) /\ e.ret = BatchResult(e.rs)
                        /\ \A i \in 1..Len(e.rs) : e.outs[i] = regs'[e.rs[i]]
    [] op = "sum"    -> Sum(e.d, e.rs) /\ Shows(regs'[e.d])
    [] op = "product" -> Product(e.d, e.rs) /\ Shows(regs'[e.d])
    [] op = "select" -> Select(e.d, e.a, e.b, e.bit) /\ Shows(regs'[e.d])
    [] op = "eq"     -> LET q == regs[e.a] = regs[e.b] IN
                        e.res = q /\ e.ct = q /\ e.ne = ~q /\ UNCHANGED regs
    [] OTHER -> FALSE
TNext == \/ /\ l <= Len(Ev) /\ ~("panic" \in DOMAIN e) /\ Step /\ l' = l + 1 /\ UNCHANGED prog
         \/ l = Len(Ev) + 1 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_vars
TypeOK == \A r \in Reg : IsElem(regs[r])
=============================================================================
