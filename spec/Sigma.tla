------------------------------- MODULE Sigma -------------------------------
(* The zero-knowledge building blocks over the commitment group: proofs of knowledge of an opening, of
   equality and of product of committed values, of inner products (linear and logarithmic), as the
   verifier's decision over the statement, the proof's elements and the challenges.

   Points are written in their compressed form, as in proofs and transcripts; generators [G, h] likewise.
   A decision is [ok, need]: `need[k]` is what challenge k has to be bound to (see Transcript). *)
EXTENDS Poly, Transcript, Ec
CONSTANT NB                   \* the field the curve y^2 = x^3 + 7 is over; its group has P elements

\* ------------------------------------------------------------------ the group
BadPt == <<"bad">>
Z0 == BOf(0)
GAdd(X, Y) == EcAdd(NB, Z0, X, Y)
GNeg(X) == EcNeg(NB, X)
GSub(X, Y) == GAdd(X, GNeg(Y))
GMul(k, X) == EcMul(NB, Z0, k, X)
GMsm(ks, Xs) == EcMsm(NB, Z0, ks, Xs)
CRhs(x) == BMod(BAdd(BMul(BMul(x, x), x), BOf(7)), NB)
IsSq(a) == BPowMod(a, BDiv(BSub(NB, BOf(1)), BOf(2)), NB) = BOf(1)
Pt(h) ==
  IF h = "00" THEN <<>>
  ELSE IF HexLen(h) # 33 \/ HexSub(h, 0, 1) \notin {"02", "03"} THEN BadPt
  ELSE LET x == BFromBE(HexSub(h, 1, 33)) IN
       IF ~BLt(x, NB) \/ ~IsSq(CRhs(x)) THEN BadPt
       ELSE LET y == BSqrt(CRhs(x), NB) odd == HexSub(h, 0, 1) = "03"
            IN Now(<<x, IF (BBit(y, 0) = 1) = odd THEN y ELSE BSub(NB, y)>>)
Enc(X) == IF X = <<>> THEN "00" ELSE HexCat(IF BBit(X[2], 0) = 1 THEN "03" ELSE "02", BToBE(X[1], 32))
Pts(hs) == Now([i \in 1..Len(hs) |-> Pt(hs[i])])
Decodes(hs) == \A i \in 1..Len(hs) : Pt(hs[i]) # BadPt
Fail == [ok |-> FALSE, need |-> <<>>]
Says(ok, need) == [ok |-> ok, need |-> need]
Commit(g, xs, r) == GMsm(xs \o <<r>>, Pts(g.G \o <<g.h>>))

\* ------------------------------------------------------------------ verifiers
KnowRun(g, C, pf, ch) ==
  IF Len(ch) < 1 \/ ~Decodes(<<C, pf.alpha>>) THEN Fail
  ELSE Says(Commit(g, <<pf.z1>>, pf.z2) = GAdd(GMul(ch[1], Pt(C)), Pt(pf.alpha)), <<<<C, pf.alpha>>>>)

EqRun(g, C1, C2, pf, ch) ==
  IF Len(ch) < 1 \/ ~Decodes(<<C1, C2, pf.alpha>>) THEN Fail
  ELSE Says(GMul(pf.z, Pt(g.h)) = GAdd(GMul(ch[1], GSub(Pt(C1), Pt(C2))), Pt(pf.alpha)), <<<<C1, C2, pf.alpha>>>>)

ProdRun(g, X, Y, XY, pf, ch) ==
  IF Len(ch) < 1 \/ ~Decodes(<<X, Y, XY, pf.alpha, pf.beta, pf.delta>>) THEN Fail
  ELSE LET c == ch[1] z == pf.z
           Chk(a, C, g1, u, v) == GAdd(Pt(a), GMul(c, Pt(C))) = GMsm(<<u, v>>, <<Pt(g1), Pt(g.h)>>)
       IN Says(Chk(pf.alpha, X, g.G[1], z[1], z[2]) /\ Chk(pf.beta, Y, g.G[1], z[3], z[4]) /\ Chk(pf.delta, XY, X, z[3], z[5]),
               <<<<X, Y, XY, pf.alpha, pf.beta, pf.delta>>>>)

\* Cx commits (under gn) to a vector whose inner product with a is what Cy commits to (under g1)
DotRun(g1, gn, a, Cx, Cy, pf, ch) ==
  IF Len(ch) < 1 \/ Len(pf.z) # Len(gn.G) \/ Len(a) # Len(gn.G) \/ ~Decodes(<<Cx, Cy, pf.delta, pf.beta>>) THEN Fail
  ELSE LET c == ch[1] IN
       Says(/\ GAdd(GMul(c, Pt(Cx)), Pt(pf.delta)) = Commit(gn, pf.z, pf.z_delta)
            /\ GAdd(GMul(c, Pt(Cy)), Pt(pf.beta)) = Commit(g1, <<FDot(pf.z, a)>>, pf.z_beta),
            <<<<Cx, Cy, pf.delta, pf.beta>> \o Bytes(a)>>)

\* coefficients of the folded generator: one factor u or 1/u per round, the first round splits the top bit
FoldCoef(us, i) == LET b == BitsOf(i, Len(us)) IN FProd([j \in 1..Len(us) |-> IF b[j] = 1 THEN us[j] ELSE FInv(us[j])])
\* the statement after the rounds: one generator, one coefficient of the public vector, one commitment
LogFold(Gs, a, gamma, Ls, Rs, us) ==
  LET k == Len(us)
      s == Now([i \in 1..Len(a) |-> FoldCoef(us, i - 1)])
  IN [gh |-> GMsm(s, Gs), ah |-> FDot(a, s),
      gammah |-> GMsm([j \in 1..k |-> FSq(us[j])] \o [j \in 1..k |-> FSq(FInv(us[j]))] \o <<F1>>, Ls \o Rs \o <<gamma>>)]
\* the last check: gammah commits (under gh and the value's generator, which is rq) to some x and ah * x
LogFinal(f, rq, h, delta, beta, c, z1, z2) ==
  GAdd(GMul(f.ah, GAdd(GMul(c, f.gammah), beta)), delta) = GMsm(<<z1, FMul(f.ah, z1), z2>>, <<f.gh, rq, h>>)
(* g has the n generators of the vector and then the one of the value. *)
LogRun(g, a, Cx, Cy, pf, ch) ==
  LET n == Len(a) k == Len(pf.L) IN
  IF Len(g.G) # n + 1 \/ Len(pf.R) # k \/ n # 2 ^ k \/ Len(ch) < k + 2
     \/ ~Decodes(pf.L \o pf.R \o <<Cx, Cy, pf.delta, pf.beta>>) THEN Fail
  ELSE LET r == ch[1]
           gamma == GAdd(Pt(Cx), GMul(r, Pt(Cy)))
           f == LogFold(Pts(SubSeq(g.G, 1, n)), a, gamma, Pts(pf.L), Pts(pf.R), SubSeq(ch, 2, k + 1))
       IN Says(LogFinal(f, GMul(r, Pt(g.G[n + 1])), Pt(g.h), Pt(pf.delta), Pt(pf.beta), ch[k + 2], pf.z1, pf.z2),
               <<<<Cx, Cy>> \o Bytes(a)>> \o [j \in 1..k |-> <<pf.L[j], pf.R[j]>>] \o <<<<pf.delta, pf.beta>>>>)
LogChs(n) == Log2(n) + 2

(* A committed table's value at r: rows of the table times the left part of r, opened against the right
   part.  C are the commitments to the rows (surplus ones are bound but play no part). *)
OpenRun(g, C, r, Czr, pf, ch) ==
  LET f == Factored(r) IN
  IF Len(C) < Len(f[1]) \/ ~Decodes(C) THEN Fail
  ELSE LET clz == GMsm(f[1], Pts(SubSeq(C, 1, Len(f[1])))) IN LogRun(g, f[2], Enc(clz), Czr, pf, ch)
=============================================================================
