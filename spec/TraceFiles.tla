----------------------------- MODULE TraceFiles -----------------------------
(* What the real readers made of files, against what the files denote. *)
EXTENDS Wtns, TLC, Json, IOUtils
Progs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES prog, l
vars == <<prog, l>>
Ev == Progs[prog].ev
e == Ev[l]
Has(k) == k \in DOMAIN e
TInit == l = 1 /\ prog \in 1..Len(Progs)
Read == Has("ok") /\ e.ok
SysOk(c) == LET i == BAdd(BAdd(c.pubOut, c.pubIn), BOf(1)) IN
            BLe(i, c.wires) => /\ Has("sys") /\ e.sys.same
                               /\ e.sys.inputs = i /\ e.sys.vars = c.wires /\ e.sys.aux = BSub(c.wires, i)
R1csStep ==
  LET p == Now(Parse(e.h)) IN
  IF p.ok THEN IF Read THEN (Ambiguous(e.h) \/ e.circuit = p.circuit) /\ (Ambiguous(e.h) \/ SysOk(p.circuit))
               ELSE e.lax                      \* lax: the file has something the format leaves open
  ELSE ~Read
WtnsStep ==
  LET p == Now(ParseWtns(e.h)) IN
  IF p.ok THEN IF Read THEN e.vals = p.vals ELSE e.lax ELSE ~Read
Step == CASE e.op = "r1cs" -> R1csStep
          [] e.op = "wtns" -> WtnsStep
          [] OTHER -> FALSE
TNext == \/ /\ l <= Len(Ev) /\ Step /\ l' = l + 1 /\ UNCHANGED prog
         \/ l = Len(Ev) + 1 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_vars
TypeOK == l \in 1..(Len(Ev) + 1)
=============================================================================
