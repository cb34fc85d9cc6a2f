----------------------------- MODULE TraceR1CS -----------------------------
(* Recorded constructions of constraint systems, circuits converted to them, satisfiability answers and
   proofs through the byte interface. *)
EXTENDS R1CS, Wtns, TLC, Json, IOUtils
Progs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES prog, l, sys, proof       \* sys: <<>> or <<the system as given>>; proof: <<>>, or <<inputs it proves>>
tvars == <<prog, l, sys, proof>>
Ev == Progs[prog].ev
e == Ev[l]
Has(k) == k \in DOMAIN e
TInit == l = 1 /\ prog \in 1..Len(Progs) /\ sys = <<>> /\ proof = <<>>
Num(h) == BFromLE(h)
Canon(h) == BLt(Num(h), P)
RawMat(M) == [i \in 1..Len(M) |-> <<M[i][1], M[i][2], Num(M[i][3])>>]
Raw == [nc |-> e.nc, nv |-> e.nv, ni |-> e.ni, A |-> RawMat(e.A), B |-> RawMat(e.B), C |-> RawMat(e.C)]
Accepted == Has("ok") /\ e.ok
SizesOf(s) == <<ConsPadded(s), VarsPadded(s), s.ni>>
Build == LET s == Now(Raw)
             good == WellFormed(s) /\ \A M \in {e.A, e.B, e.C} : \A i \in 1..Len(M) : Canon(M[i][3])
         IN /\ Accepted = good
            /\ good => e.sizes = SizesOf(s)
            /\ sys' = IF good THEN <<s>> ELSE <<>>
            /\ proof' = <<>>
IntLc(v) == [i \in 1..Len(v) |-> <<BInt(v[i][1]), v[i][2]>>]
IntCon(c) == [k \in 1..3 |-> IntLc(c[k])]
Conv == LET p == Now(Parse(e.h)) IN
        IF ~p.ok THEN ~Accepted /\ sys' = <<>> /\ proof' = <<>> ELSE
        LET c == p.circuit
            w == BInt(c.wires)
            good == \A i \in 1..Len(c.cons) : \A k \in 1..3 : \A t \in 1..Len(c.cons[i][k]) : BLt(c.cons[i][k][t][1], c.wires)
            s == Now(Convert([i \in 1..Len(c.cons) |-> IntCon(c.cons[i])], w, e.npub))
        IN /\ Accepted = good
           /\ good => e.sizes = SizesOf(s)
           /\ sys' = IF good THEN <<s>> ELSE <<>>
           /\ proof' = <<>>
Solves(s, v, i) == LET p == Now(Pad(s)) IN Sat(p, PadVars(v, p.nv), i)
\* a system made up together with an assignment: of the sizes asked for, and satisfied by the assignment
IsPow2(n) == n >= 1 /\ Pow2Ceil(n) = n
Synth == IF ~(IsPow2(e.nc) /\ e.nc >= 2 /\ IsPow2(e.nv) /\ e.ni < e.nv)
         THEN (Accepted => e.res = "yes") /\ sys' = <<>> /\ proof' = <<>> ELSE
         /\ Accepted
         /\ e.sizes = <<e.nc, e.nv, e.ni>> /\ Len(e.vars) = e.nv /\ Len(e.inputs) = e.ni
         /\ \E s \in {Now(Raw)} :
              /\ WellFormed(s)
              /\ e.res = "yes"
              /\ Solves(s, [i \in 1..Len(e.vars) |-> Num(e.vars[i])], [i \in 1..Len(e.inputs) |-> Num(e.inputs[i])])
              /\ sys' = <<s>>
         /\ proof' = <<>>
Answer == LET s == sys[1] IN
  IF (\A i \in 1..Len(e.vars) : Canon(e.vars[i])) /\ (\A i \in 1..Len(e.inputs) : Canon(e.inputs[i]))
     /\ Len(e.vars) <= VarsPadded(s) /\ Len(e.inputs) = s.ni
  THEN Has("res") /\ e.res = IF Solves(s, [i \in 1..Len(e.vars) |-> Num(e.vars[i])], [i \in 1..Len(e.inputs) |-> Num(e.inputs[i])]) THEN "yes" ELSE "no"
  ELSE Has("panic") \/ e.res = "error"
Eval == LET p == Now(Pad(sys[1])) IN
        e.abc = <<MatMle(p.A, e.rx, e.ry), MatMle(p.B, e.rx, e.ry), MatMle(p.C, e.rx, e.ry)>>
Multiply == LET p == Now(Pad(sys[1])) IN
        e.a = MulVec(p.A, e.z, p.nc) /\ e.b = MulVec(p.B, e.z, p.nc) /\ e.c = MulVec(p.C, e.z, p.nc)
\* public inputs over the byte interface: 32 big-endian bytes each
PubCount(h) == HexLen(h) \div 32
Pub(h, i) == BFromBE(HexSub(h, 32 * (i - 1), 32 * i))
PubOk(h, n) == PubCount(h) >= n /\ \A i \in 1..n : BLt(Pub(h, i), P)
Pubs(h, n) == [i \in 1..n |-> Pub(h, i)]
Prove == LET s == sys[1]
             w == Now(ParseWtns(e.wtns))
             usable == w.ok /\ PubOk(e.inputs, s.ni) /\ Len(w.vals) <= VarsPadded(s)
             true == usable /\ Solves(s, w.vals, Pubs(e.inputs, s.ni))
         IN /\ true => Accepted
            /\ ~w.ok => ~Accepted
            /\ proof' = IF Accepted /\ true THEN <<Pubs(e.inputs, s.ni)>> ELSE <<>>
            /\ UNCHANGED sys
Verify == LET n == sys[1].ni IN
          /\ e.ok = (proof # <<>> /\ PubOk(e.inputs, n) /\ proof = <<Pubs(e.inputs, n)>>)
          /\ UNCHANGED <<sys, proof>>
Keep == UNCHANGED <<sys, proof>>
Step == CASE e.op = "inst" -> Build
          [] e.op = "conv" -> Conv
          [] e.op = "synth" -> Synth
          [] e.op \in {"sat", "near"} -> Answer /\ Keep
          [] e.op = "eval" -> ~Has("panic") /\ Eval /\ Keep
          [] e.op = "multiply" -> ~Has("panic") /\ Multiply /\ Keep
          [] e.op = "prove" -> Prove
          [] e.op = "verify" -> Verify
          [] OTHER -> FALSE
\* requests about a system that was refused have no meaning
Idle == sys = <<>> /\ e.op \in {"sat", "near", "eval", "multiply", "prove", "verify"} /\ Keep
TNext == \/ /\ l <= Len(Ev) /\ (Idle \/ ((e.op \in {"inst", "conv", "synth"} \/ sys # <<>>) /\ Step)) /\ l' = l + 1 /\ UNCHANGED prog
         \/ l = Len(Ev) + 1 /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
TypeOK == l \in 1..(Len(Ev) + 1)
=============================================================================
