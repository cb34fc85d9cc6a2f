------------------------------ MODULE Sumcheck ------------------------------
(* The sum-check protocol in the clear, and the product circuits on top of it, as functions of the
   proof's messages and the challenges.

   A proof is a sequence of round polynomials without their linear coefficient. *)
EXTENDS Poly, Transcript

\* ------------------------------------------------------------------ verifier
(* [ok, e, need]: accepted; the claim left after the last round; what each challenge binds *)
ScRun(claim, polys, rounds, degree, ch) ==
  IF Len(polys) # rounds \/ Len(ch) < rounds \/ \E i \in 1..Len(polys) : Len(polys[i]) # degree
  THEN [ok |-> FALSE, e |-> claim, need |-> <<>>]
  ELSE FoldLeft(LAMBDA a, i : LET full == Now(UDecompress(polys[i], a.e))
                              IN Now([ok |-> TRUE, e |-> UAt(full, ch[i]), need |-> Append(a.need, Bytes(full))]),
                [ok |-> TRUE, e |-> claim, need |-> <<>>], [i \in 1..rounds |-> i])

\* ------------------------------------------------------------------ prover
Comb(f, a, b, c) == CASE f = "abc" -> FMul(a, FMul(b, c))
                      [] f = "ab-c" -> FSub(FMul(a, b), c)
                      [] f = "a(b-c)" -> FMul(a, FSub(b, c))
\* the sum over the cube
Total(f, A, B, C) == FSum([i \in 1..Len(A) |-> Comb(f, A[i], B[i], C[i])])
\* the round polynomial of the tables at t: fix the first variable to t, sum over the others
RoundAt(f, A, B, C, t) == Total(f, BindTop(A, t), BindTop(B, t), BindTop(C, t))
RoundPoly(f, A, B, C) == Now(Lagrange([k \in 1..4 |-> RoundAt(f, A, B, C, F(k - 1))]))
BindAll(T, r) == FoldLeft(LAMBDA t, x : BindTop(t, x), T, r)

(* Honest proofs of several sums at once, weighted by ws: terms are [f, A, B, C].  The messages for the
   challenges ch, and the tables' values at the challenges. *)
WSum(ws, ps) == [k \in 1..Len(ps[1]) |-> FSum([i \in 1..Len(ps) |-> FMul(ws[i], ps[i][k])])]
ScProof(terms, ws, rounds, ch) ==
  LET Step(a, i) ==
        LET g == WSum(ws, [j \in 1..Len(terms) |-> RoundPoly(terms[j].f, a.t[j].A, a.t[j].B, a.t[j].C)])
        IN Now([polys |-> Append(a.polys, UCompress(g)),
                t |-> [j \in 1..Len(terms) |-> [A |-> BindTop(a.t[j].A, ch[i]), B |-> BindTop(a.t[j].B, ch[i]), C |-> BindTop(a.t[j].C, ch[i])]]])
  IN FoldLeft(Step, [polys |-> <<>>, t |-> [j \in 1..Len(terms) |-> [A |-> terms[j].A, B |-> terms[j].B, C |-> terms[j].C]]],
              [i \in 1..rounds |-> i])
TotalOf(terms, ws) == FSum([j \in 1..Len(terms) |-> FMul(ws[j], Total(terms[j].f, terms[j].A, terms[j].B, terms[j].C))])

\* ------------------------------------------------------------------ product circuits
(* A table's product by a tree of products.  A proof has a layer per variable: layer i (from 0) has a
   sum-check with i rounds for eq(rand, .) * left(.) * right(.), and the values left(r'), right(r'). *)
PcRun(proof, eval, len, ch) ==
  LET n == Log2(len)
      Step(a, i) ==
        IF ~a.ok THEN a ELSE
        LET y == proof[i]
            c == SubSeq(ch, a.k + 1, Len(ch))
            s == ScRun(a.claim, y.polys, i - 1, 3, c)
            rp == SubSeq(c, 1, i - 1)
        IN IF ~s.ok \/ Len(y.claims) < 2 \/ Len(c) < i THEN [a EXCEPT !.ok = FALSE]
           ELSE IF s.e # FMul(FMul(y.claims[1], y.claims[2]), EqAt(a.rand, rp)) THEN [a EXCEPT !.ok = FALSE]
           ELSE Now([ok |-> TRUE, k |-> a.k + i, rand |-> <<c[i]>> \o rp,
                     claim |-> FAdd(FMul(FSub(F1, c[i]), y.claims[1]), FMul(c[i], y.claims[2])),
                     need |-> a.need \o s.need \o <<Bytes(<<y.claims[1], y.claims[2]>>)>>])
  IN IF Len(proof) # n THEN [ok |-> FALSE, k |-> 0, rand |-> <<>>, claim |-> eval, need |-> <<>>]
     ELSE FoldLeft(Step, [ok |-> TRUE, k |-> 0, rand |-> <<>>, claim |-> eval, need |-> <<>>], [i \in 1..n |-> i])

(* Several product circuits and, in the last layer, dot products at once.  proof = [layers, dots] where a
   layer is [polys, left, right] and dots = <<lefts, rights, weights>>. *)
PbRun(proof, claims, dclaims, len, ch) ==
  LET n == Log2(len)
      np == Len(claims)
      nd == Len(dclaims)
      d == proof.dots
      Step(a, i) ==
        IF ~a.ok THEN a ELSE
        LET y == proof.layers[i]
            last == i = n
            m == IF last THEN np + nd ELSE np
            c == SubSeq(ch, a.k + 1, Len(ch))
            cs == IF last THEN a.claims \o dclaims ELSE a.claims
            rp == SubSeq(c, m + 1, m + i - 1)
        IN IF Len(c) < m + i \/ Len(y.left) # np \/ Len(y.right) # np \/ (last /\ \E j \in 1..3 : Len(d[j]) # nd) THEN [a EXCEPT !.ok = FALSE]
           ELSE
        LET w == SubSeq(c, 1, m)
            s == ScRun(FDot(cs, w), y.polys, i - 1, 3, SubSeq(c, m + 1, Len(c)))
            eq == EqAt(a.rand, rp)
            want == FAdd(FSum([j \in 1..np |-> FMul(w[j], FMul(FMul(y.left[j], y.right[j]), eq))]),
                         IF last THEN FSum([j \in 1..nd |-> FMul(w[np + j], FMul(d[1][j], FMul(d[2][j], d[3][j])))]) ELSE F0)
            r == c[m + i]
            Mix(x, y2) == FAdd(x, FMul(r, FSub(y2, x)))
            layer == CatAll([j \in 1..np |-> Bytes(<<y.left[j], y.right[j]>>)])
                     \o (IF last THEN CatAll([j \in 1..nd |-> Bytes(<<d[1][j], d[2][j], d[3][j]>>)]) ELSE <<>>)
        IN IF ~s.ok \/ s.e # want THEN [a EXCEPT !.ok = FALSE]
           ELSE Now([ok |-> TRUE, k |-> a.k + m + i, rand |-> <<r>> \o rp,
                     claims |-> [j \in 1..np |-> Mix(y.left[j], y.right[j])],
                     dots3 |-> IF ~last THEN <<>> ELSE CatAll([j \in 1..(nd \div 2) |-> [t \in 1..3 |-> Mix(d[t][2 * j - 1], d[t][2 * j])]]),
                     need |-> a.need \o [j \in 1..m |-> <<>>] \o s.need \o <<layer>>])
      start == [ok |-> TRUE, k |-> 0, rand |-> <<>>, claims |-> claims, dots3 |-> <<>>, need |-> <<>>]
  IN IF Len(proof.layers) # n THEN [start EXCEPT !.ok = FALSE] ELSE FoldLeft(Step, start, [i \in 1..n |-> i])
=============================================================================
