----------------------------- MODULE R1csProof -----------------------------
(* The proof that a constraint system is satisfied: a committed assignment, two committed sum-checks and
   the proofs that tie them together.  The decision of its verifier.

   gs: [log, three, four] generators; log has the n generators of the commitment's rows and then the one
   that single values are committed under. *)
EXTENDS ZkSumcheck
ValueGens(g) == [G |-> <<g.G[Len(g.G)]>>, h |-> g.h]
Msm2(k1, A, k2, B) == GMsm(<<k1, k2>>, <<A, B>>)
NoPt == "00"                  \* the point at infinity, which commits to 0
Drop(s, n) == SubSeq(s, n + 1, Len(s))
(* nc, nv: padded sizes; first: what the first challenge binds beyond the proof's own elements;
   Evals(rx, ry): the values of the three matrices *)
SatRun(nc, nv, inputs, Evals(_, _), first, gs, pf, ch) ==
  LET nx == Log2(nc)
      ny == Log2(2 * nv)
      g1 == ValueGens(gs.log)
      open == LogChs(Len(gs.log.G) - 1)
      total == nx + 4 * nx + 3 + 3 + 4 * ny + open + 1
      bad == [ok |-> FALSE, rx |-> <<>>, ry |-> <<>>, used |-> 0, need |-> <<>>]
      cl == pf.claims2
      A == cl[1]  B == cl[2]  C == cl[3]  AB == cl[4]
  IN IF Len(ch) < total \/ ~Decodes(<<A, B, C, AB, pf.comm_vars_at_ry>> \o pf.comm_vars) THEN bad
  ELSE
  LET tau == SubSeq(ch, 1, nx)
      s1 == ZkRun(g1, gs.four, 3, NoPt, nx, pf.sc1, Drop(ch, nx))
      o1 == 5 * nx
  IN IF ~s1.ok THEN bad ELSE
  LET kn == KnowRun(g1, C, pf.pok[1], Drop(ch, o1))
      pr == ProdRun(g1, A, B, AB, pf.pok[2], Drop(ch, o1 + 1))
      e1 == Enc(GMul(EqAt(tau, s1.r), GSub(Pt(AB), Pt(C))))
      q1 == EqRun(g1, e1, s1.claim, pf.eq1, Drop(ch, o1 + 2))
      rA == ch[o1 + 4]  rB == ch[o1 + 5]  rC == ch[o1 + 6]
      o2 == o1 + 6
      c2 == Enc(GMsm(<<rA, rB, rC>>, Pts(<<A, B, C>>)))
      s2 == ZkRun(g1, gs.three, 2, c2, ny, pf.sc2, Drop(ch, o2))
      o3 == o2 + 4 * ny
  IN IF ~kn.ok \/ ~pr.ok \/ ~q1.ok \/ ~s2.ok THEN bad ELSE
  LET ry == s2.r
      op == OpenRun(gs.log, pf.comm_vars, Tail(ry), pf.comm_vars_at_ry, pf.open, Drop(ch, o3))
      pub == SparseAt(<<<<0, F1>>>> \o [i \in 1..Len(inputs) |-> <<i, inputs[i]>>], Tail(ry))
      zry == GAdd(GMul(FSub(F1, ry[1]), Pt(pf.comm_vars_at_ry)), GMul(FMul(ry[1], pub), Pt(g1.G[1])))
      ev == Evals(s1.r, ry)
      e2 == Enc(GMul(FAdd(FMul(rA, ev[1]), FAdd(FMul(rB, ev[2]), FMul(rC, ev[3]))), zry))
      q2 == EqRun(g1, e2, s2.claim, pf.eq2, Drop(ch, o3 + open))
      need == <<first \o Bytes(inputs) \o pf.comm_vars>> \o [i \in 1..(nx - 1) |-> <<>>] \o s1.need
              \o <<<<C, pf.pok[1].alpha>>, <<A, B, AB, pf.pok[2].alpha, pf.pok[2].beta, pf.pok[2].delta>>, <<pf.eq1.alpha>>, <<>>, <<>>, <<>>>>
              \o s2.need
              \o <<<<pf.comm_vars_at_ry>>>> \o Tail(op.need)
              \o <<<<e2, pf.eq2.alpha>>>>
  IN [ok |-> op.ok /\ q2.ok, rx |-> s1.r, ry |-> ry, used |-> total, need |-> need]

(* The verifier of the NIZK: the matrices are evaluated in the clear. *)
NizkRun(sys, digest, inputs, gs, pf, ch) ==
  LET p == Pad(sys)
      v == SatRun(p.nc, p.nv, inputs, LAMBDA rx, ry : <<MatMle(p.A, rx, ry), MatMle(p.B, rx, ry), MatMle(p.C, rx, ry)>>, <<digest>>, gs, pf.sat, ch)
  IN IF Len(inputs) # sys.ni THEN [v EXCEPT !.ok = FALSE]
     ELSE [v EXCEPT !.ok = @ /\ v.used = Len(ch) /\ pf.r = <<v.rx, v.ry>>]
=============================================================================
