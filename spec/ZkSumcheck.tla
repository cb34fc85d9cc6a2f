---------------------------- MODULE ZkSumcheck ----------------------------
(* The sum-check protocol with committed round polynomials: in every round the prover commits to the
   polynomial and to its value at the challenge, and proves that both fit the previous commitment. *)
EXTENDS Sigma
ZkStep(g1, gn, pf, ch, a, i) ==
  IF ~a.ok THEN a ELSE
  LET c == SubSeq(ch, 4 * i - 3, 4 * i)
      r == c[1]
      w0 == c[2]
      w1 == c[3]
      n == Len(gn.G)
      target == GMsm(<<w0, w1>>, <<Pt(a.claim), Pt(pf.evals[i])>>)
      \* g(0) + g(1) and g(r), as inner products with the coefficients
      av == Now([k \in 1..n |-> FAdd(FMul(w0, IF k = 1 THEN F(2) ELSE F1), FMul(w1, FPow(r, N(k - 1))))])
      d == DotRun(g1, gn, av, pf.polys[i], Enc(target), pf.proofs[i], <<c[4]>>)
      \* a round's derived values are functions of what is bound already
      mine == <<<<pf.polys[i]>>, <<pf.evals[i]>>, <<>>, <<pf.proofs[i].delta, pf.proofs[i].beta>>>>
  IN Now([ok |-> d.ok, claim |-> pf.evals[i], r |-> Append(a.r, r), need |-> a.need \o mine])
\* [ok, claim: commitment to the final claim, r, need]
ZkRun(g1, gn, degree, cclaim, rounds, pf, ch) ==
  LET start == [ok |-> TRUE, claim |-> cclaim, r |-> <<>>, need |-> <<>>] IN
  IF Len(gn.G) # degree + 1 \/ Len(pf.polys) # rounds \/ Len(pf.evals) # rounds \/ Len(pf.proofs) # rounds
     \/ Len(ch) < 4 * rounds \/ ~Decodes(pf.polys \o pf.evals \o <<cclaim>>)
  THEN [start EXCEPT !.ok = FALSE]
  ELSE FoldLeft(LAMBDA a, i : ZkStep(g1, gn, pf, ch, a, i), start, [i \in 1..rounds |-> i])

\* honest round polynomials of sum over the cube of a function of several tables
ZkComb(f, v) == CASE f = "ab" -> FMul(v[1], v[2])
                  [] f = "a(b+1)" -> FMul(v[1], FAdd(v[2], F1))
                  [] f = "a(bc-d)" -> FMul(v[1], FSub(FMul(v[2], v[3]), v[4]))
                  [] f = "abc+d" -> FAdd(FMul(v[1], FMul(v[2], v[3])), v[4])
ZkTotal(f, ts) == FSum([i \in 1..Len(ts[1]) |-> ZkComb(f, [k \in 1..Len(ts) |-> ts[k][i]])])
ZkBind(ts, r) == Now([k \in 1..Len(ts) |-> BindTop(ts[k], r)])
ZkPoly(f, ts, degree) == Now(Lagrange([t \in 1..(degree + 1) |-> ZkTotal(f, ZkBind(ts, F(t - 1)))]))
\* polynomials and values for the challenges rs
ZkHonest(f, ts, degree, rs) ==
  FoldLeft(LAMBDA a, i : LET g == ZkPoly(f, a.ts, degree)
                         IN Now([polys |-> Append(a.polys, g), evals |-> Append(a.evals, UAt(g, rs[i])), ts |-> ZkBind(a.ts, rs[i])]),
           [polys |-> <<>>, evals |-> <<>>, ts |-> ts], [i \in 1..Len(rs) |-> i])
=============================================================================
