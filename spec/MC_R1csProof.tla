---------------------------- MODULE MC_R1csProof ----------------------------
(* The composed verifier as a game.  SatRun is the text recorded verifiers are judged by; here a commitment
   is the value it holds (a prover cannot open it otherwise: MC_Sigma) and the building blocks decide the
   relation they prove, so that what is explored is the chain itself: from the satisfied system over
   tau, the first sum-check, the three claims, their combination, the second sum-check, the opening and
   the matrices' values to the verdict.

   The prover may send anything in every move.  `lucky` remembers whether a challenge made a false claim
   true; a proof for an unsatisfied system is accepted only then.  Honest moves are always accepted.  Omit:
   the links left out of the verifier (none, except to see that each is needed). *)
EXTENDS R1csProof, TLC, FiniteSets
CONSTANTS Systems,        \* sequence of [nc, nv, ni, A, B, C, inputs]
          Wits,           \* values of the assignment's entries
          Combos,         \* challenges <<rA, rB, rC>> explored
          Pairs,          \* challenges <<w0, w1>> of the rounds
          Lead,           \* polynomials explored: coefficients above the linear one
          Omit
El == 0..(P - 1)
VARIABLES sys, wit, stage, pf, ch, lucky, honest
vars == <<sys, wit, stage, pf, ch, lucky, honest>>
\* ------------------------------------------------ the ideal building blocks
Id(x) == x
All(x) == TRUE
Nought == 0
Yes == Says(TRUE, <<<<>>, <<>>>>)
Rel(what, b) == Says(b \/ what \in Omit, <<<<>>, <<>>>>)
IdKnow(g, C, p, c) == Yes
IdEq(g, C1, C2, p, c) == Rel(p.of, C1 = C2)
IdProd(g, X, Y, XY, p, c) == Rel("product", XY = FMul(X, Y))
IdDot(g1, gn, a, Cx, Cy, p, c) == Rel("rounds", FDot(a, Cx) = Cy)
IdOpen(g, C, r, Czr, p, c) == Rel("open", Czr = VecMle(C, r))
\* ------------------------------------------------ the true values
pd == Pad(sys)
nx == Log2(pd.nc)
ny == Log2(2 * pd.nv)
zz == PadVars(PadVars(wit, pd.nv) \o <<F1>> \o sys.inputs, 2 * pd.nv)
sat == Sat(sys, wit, sys.inputs)
az == MulVec(pd.A, zz, pd.nc)
bz == MulVec(pd.B, zz, pd.nc)
cz == MulVec(pd.C, zz, pd.nc)
tau == SubSeq(ch, 1, nx)
Rounds(o, n) == [i \in 1..n |-> ch[o + 4 * i - 3]]
o2 == 5 * nx + 6
\* the sum the first sum-check is about, after its first k rounds
BindAll(t, rs) == FoldLeft(LAMBDA a, r : BindTop(a, r), t, rs)
Tabs1(rs) == <<BindAll(EqTable(tau), rs), BindAll(az, rs), BindAll(bz, rs), BindAll(cz, rs)>>
row == LET ex == EqTable(Rounds(nx, nx)) a == RowMul(pd.A, ex, 2 * pd.nv) b == RowMul(pd.B, ex, 2 * pd.nv) c == RowMul(pd.C, ex, 2 * pd.nv)
       IN [i \in 1..(2 * pd.nv) |-> FDot(SubSeq(ch, 5 * nx + 4, 5 * nx + 6), <<a[i], b[i], c[i]>>)]
Tabs2(rs) == <<BindAll(zz, rs), BindAll(row, rs)>>
First == stage \in {"poly1", "r1", "val1", "w1"}
Deg == IF First THEN 3 ELSE 2
Done == IF First THEN Len(pf.sc1.evals) ELSE Len(pf.sc2.evals)
Off == IF First THEN nx ELSE o2
Tabs(rs) == IF First THEN Tabs1(rs) ELSE Tabs2(rs)
Comb == IF First THEN "a(bc-d)" ELSE "ab"
Here == Tabs(Rounds(Off, Done))
Claim == IF First THEN (IF Done = 0 THEN 0 ELSE pf.sc1.evals[Done])
         ELSE IF Done = 0 THEN FDot(SubSeq(ch, 5 * nx + 4, 5 * nx + 6), SubSeq(pf.claims2, 1, 3)) ELSE pf.sc2.evals[Done]
ClaimTrue == Claim = ZkTotal(Comb, Here)
rx == Rounds(nx, nx)
Claims == <<VecMle(az, rx), VecMle(bz, rx), VecMle(cz, rx)>>
\* ------------------------------------------------ moves
NoZk == [polys |-> <<>>, evals |-> <<>>, proofs |-> <<>>]
Dummy == [delta |-> 0, beta |-> 0, alpha |-> 0]
Init == /\ sys \in Range(Systems) /\ wit \in [1..sys.nv -> Wits] /\ stage = "tau" /\ ch = <<>> /\ lucky = FALSE /\ honest = TRUE
        /\ pf = [comm_vars |-> PadVars(wit, VarsPadded(sys)), sc1 |-> NoZk, sc2 |-> NoZk, claims2 |-> <<>>, pok |-> <<Dummy, Dummy>>, eq1 |-> [alpha |-> 0, of |-> "first"],
                 eq2 |-> [alpha |-> 0, of |-> "second"], open |-> Dummy, comm_vars_at_ry |-> 0]
Sc == IF First THEN pf.sc1 ELSE pf.sc2
WithSc(s) == IF First THEN [pf EXCEPT !.sc1 = s] ELSE [pf EXCEPT !.sc2 = s]
Same == UNCHANGED <<sys, wit>>
Luck(was, is) == lucky' = (lucky \/ (~was /\ is))
TauStep == stage = "tau" /\ \E c \in El :
  /\ ch' = Append(ch, c) /\ stage' = (IF Len(ch) + 1 = nx THEN "poly1" ELSE "tau")
  /\ lucky' = (IF Len(ch) + 1 = nx THEN ~sat /\ ZkTotal("a(bc-d)", <<EqTable(ch'), az, bz, cz>>) = 0 ELSE lucky)
  /\ UNCHANGED <<pf, honest>>
PolyStep == stage \in {"poly1", "poly2"} /\ \E q \in [1..(Deg + 1) -> El] :
  LET h == ZkPoly(Comb, Here, Deg) IN
  /\ q = h \/ \A k \in 3..Len(q) : q[k] \in Lead
  /\ pf' = WithSc([Sc EXCEPT !.polys = Append(@, q), !.proofs = Append(@, Dummy)])
  /\ honest' = (honest /\ q = h)
  /\ stage' = (IF First THEN "r1" ELSE "r2") /\ UNCHANGED <<ch, lucky>>
RStep == stage \in {"r1", "r2"} /\ \E c \in El :
  /\ ch' = Append(ch, c) /\ stage' = (IF stage = "r1" THEN "val1" ELSE "val2")
  \* the claim is false, and yet the polynomial sent takes the true one's value here
  /\ lucky' = (lucky \/ (~ClaimTrue /\ UAt(Sc.polys[Done + 1], c) = UAt(ZkPoly(Comb, Here, Deg), c)))
  /\ UNCHANGED <<pf, honest>>
ValStep == stage \in {"val1", "val2"} /\ \E v \in El :
  LET q == Sc.polys[Done + 1] IN
  /\ pf' = WithSc([Sc EXCEPT !.evals = Append(@, v)])
  /\ honest' = (honest /\ v = UAt(q, ch[Len(ch)]))
  /\ stage' = (IF stage = "val1" THEN "w1" ELSE "w2") /\ UNCHANGED <<ch, lucky>>
\* the two conditions on a round are checked in one combination
WStep == stage \in {"w1", "w2"} /\ \E ww \in Pairs :
  LET n == Done  q == Sc.polys[n]  r == ch[Len(ch)]
      was == IF n = 1 THEN (IF First THEN 0 ELSE FDot(SubSeq(ch, 5 * nx + 4, 5 * nx + 6), SubSeq(pf.claims2, 1, 3))) ELSE Sc.evals[n - 1]
      sums == FAdd(UAt(q, 0), UAt(q, 1)) = was
      vals == UAt(q, r) = Sc.evals[n]
      both == FAdd(FMul(ww[1], FAdd(UAt(q, 0), UAt(q, 1))), FMul(ww[2], UAt(q, r))) = FAdd(FMul(ww[1], was), FMul(ww[2], Sc.evals[n]))
  IN /\ both \/ "rounds" \in Omit                                    \* otherwise the proof is refused already
     /\ ch' = ch \o <<ww[1], ww[2], 0>>
     /\ lucky' = (lucky \/ (both /\ ~(sums /\ vals)))
     /\ stage' = (IF First THEN (IF n = nx THEN "claims" ELSE "poly1") ELSE (IF n = ny THEN "open" ELSE "poly2"))
     /\ UNCHANGED <<pf, honest>>
ClaimStep == stage = "claims" /\ \E c \in [1..4 -> El] :
  /\ c[4] = FMul(c[1], c[2]) \/ "product" \in Omit
  /\ FMul(EqAt(tau, rx), FSub(c[4], c[3])) = pf.sc1.evals[nx] \/ "first" \in Omit
  /\ pf' = [pf EXCEPT !.claims2 = c]
  /\ honest' = (honest /\ SubSeq(c, 1, 3) = Claims /\ c[4] = FMul(c[1], c[2]))
  /\ ch' = ch \o <<0, 0, 0>>
  /\ stage' = "combine" /\ UNCHANGED <<lucky>>
CombineStep == stage = "combine" /\ \E c \in Combos :
  /\ ch' = ch \o c
  /\ lucky' = (lucky \/ (SubSeq(pf.claims2, 1, 3) # Claims /\ FDot(c, SubSeq(pf.claims2, 1, 3)) = FDot(c, Claims)))
  /\ stage' = "poly2" /\ UNCHANGED <<pf, honest>>
OpenStep == stage = "open" /\ \E v \in El :
  /\ pf' = [pf EXCEPT !.comm_vars_at_ry = v]
  /\ honest' = (honest /\ v = VecMle(PadVars(wit, pd.nv), Tail(Rounds(o2, ny))))
  /\ ch' = ch \o [i \in 1..(LogChs(pd.nv) + 1) |-> 0]
  /\ stage' = "end" /\ UNCHANGED <<lucky>>
Next == (TauStep \/ PolyStep \/ RStep \/ ValStep \/ WStep \/ ClaimStep \/ CombineStep \/ OpenStep) /\ Same
Spec == Init /\ [][Next]_vars
\* what the rest of the game depends on
View == <<sys, wit, stage, lucky, honest,
          CASE stage \in {"tau"} -> <<ch>>
            [] First -> <<ch, pf.sc1>>
            [] stage = "claims" -> <<tau, rx, pf.sc1.evals[nx]>>
            [] stage = "combine" -> <<rx, pf.claims2>>
            [] stage \in {"poly2", "r2", "val2", "w2"} -> <<rx, SubSeq(ch, 5 * nx + 4, Len(ch)), Claim, pf.sc2>>
            [] OTHER -> <<rx, SubSeq(ch, 5 * nx + 4, 5 * nx + 6), Rounds(o2, ny), pf.sc2.evals[ny], pf.comm_vars_at_ry>>>>
Gens(n) == [G |-> [i \in 1..n |-> 1], h |-> 1]
Verdict == SatRun(pd.nc, pd.nv, sys.inputs, LAMBDA x, y : <<MatMle(pd.A, x, y), MatMle(pd.B, x, y), MatMle(pd.C, x, y)>>, <<>>,
                  [log |-> Gens(pd.nv + 1), three |-> Gens(3), four |-> Gens(4)], pf, ch)
Sound == stage = "end" /\ ~sat /\ ~lucky => ~Verdict.ok
Complete == stage = "end" /\ sat /\ honest => Verdict.ok
\* a false claim survives few of the challenges
FewTau == stage = "tau" /\ ch = <<>> /\ ~sat =>
  Cardinality({t \in [1..nx -> El] : ZkTotal("a(bc-d)", <<EqTable(t), az, bz, cz>>) = 0}) <= nx * P ^ (nx - 1)
FewCombos == stage = "combine" /\ SubSeq(pf.claims2, 1, 3) # Claims =>
  Cardinality({c \in [1..3 -> El] : FDot(c, SubSeq(pf.claims2, 1, 3)) = FDot(c, Claims)}) <= P * P
\* shows that the game can be won by luck, and that the honest prover gets to the end
NoLuck == ~(stage = "end" /\ ~sat /\ Verdict.ok)
=============================================================================
