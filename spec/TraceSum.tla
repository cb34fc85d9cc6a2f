----------------------------- MODULE TraceSum -----------------------------
(* Recorded runs of the sum-check prover and verifier and of the product-circuit arguments. *)
EXTENDS Sumcheck, TLC, Json, IOUtils
Progs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES prog, l
tvars == <<prog, l>>
Ev == Progs[prog].ev
e == Ev[l]
TInit == l = 1 /\ prog \in 1..Len(Progs)
ch == Chs(e.log)
NumCh == Len(ch)
Terms1 == <<[f |-> e.f, A |-> e.A, B |-> e.B, C |-> e.C]>>
TermsB == [i \in 1..Len(e.PA) |-> [f |-> e.f, A |-> e.PA[i], B |-> e.PB[i], C |-> e.C]]
          \o [i \in 1..Len(e.SA) |-> [f |-> e.f, A |-> e.SA[i], B |-> e.SB[i], C |-> e.SC[i]]]
\* an honest prover's messages are the round polynomials, whatever the challenges are
Honest(terms, ws, pf) ==
  LET n == Log2(Len(terms[1].A)) p == ScProof(terms, ws, n, ch) v == ScRun(TotalOf(terms, ws), pf, n, 3, ch)
  IN NumCh = n /\ pf = p.polys /\ v.ok /\ Binds(e.log, v.need) /\ e.r = ch
Vals(t, k) == [i \in 1..Len(t) |-> IF k = 1 THEN t[i].A[1] ELSE IF k = 2 THEN t[i].B[1] ELSE t[i].C[1]]
Op ==
  CASE e.op = "sc_prove" -> /\ e.ok
                            /\ IF e.claim = TotalOf(Terms1, <<F1>>) THEN Honest(Terms1, <<F1>>, e.pf) ELSE TRUE
                            /\ e.finals = <<VecMle(e.A, e.r), VecMle(e.B, e.r), VecMle(e.C, e.r)>>
    [] e.op = "sc_batch" -> /\ e.ok
                            /\ IF e.claim = TotalOf(TermsB, e.coeffs) THEN Honest(TermsB, e.coeffs, e.pf) ELSE TRUE
                            /\ e.fp = <<[i \in 1..Len(e.PA) |-> VecMle(e.PA[i], e.r)], [i \in 1..Len(e.PB) |-> VecMle(e.PB[i], e.r)], <<VecMle(e.C, e.r)>> >>
                            /\ e.fs = <<[i \in 1..Len(e.SA) |-> VecMle(e.SA[i], e.r)], [i \in 1..Len(e.SB) |-> VecMle(e.SB[i], e.r)], [i \in 1..Len(e.SC) |-> VecMle(e.SC[i], e.r)]>>
    [] e.op = "sc_verify" -> LET v == ScRun(e.claim, e.pf, e.rounds, e.degree, ch)
                             IN IF e.ok THEN v.ok /\ NumCh = e.rounds /\ e.e = v.e /\ e.r = ch /\ Binds(e.log, v.need)
                                ELSE ~v.ok
    \* a tree of products: accepted proofs reduce the product to one value of the table
    [] e.op = "pc_prove" -> LET v == PcRun(e.pf, FProd(e.z), Len(e.z), ch)
                            IN e.ok /\ v.ok /\ v.k = NumCh /\ Binds(e.log, v.need) /\ e.rand = v.rand /\ e.claim = v.claim /\ v.claim = VecMle(e.z, v.rand)
    [] e.op = "pc_verify" -> LET v == PcRun(e.pf, e.eval, e.len, ch)
                             IN IF e.ok THEN v.ok /\ v.k = NumCh /\ Binds(e.log, v.need) /\ e.rand = v.rand /\ e.claim = v.claim ELSE ~v.ok
    [] e.op = "pb_prove" ->
         LET v == PbRun(e.pf, [i \in 1..Len(e.zs) |-> FProd(e.zs[i])],
                        [i \in 1..Len(e.dots) |-> FSum([j \in 1..Len(e.dots[i][1]) |-> FMul(e.dots[i][1][j], FMul(e.dots[i][2][j], e.dots[i][3][j]))])],
                        Len(e.zs[1]), ch)
         IN /\ e.ok /\ v.ok /\ v.k = NumCh /\ Binds(e.log, v.need) /\ e.rand = v.rand
            /\ v.claims = [i \in 1..Len(e.zs) |-> VecMle(e.zs[i], v.rand)]
            /\ v.dots3 = CatAll([j \in 1..(Len(e.dots) \div 2) |-> [t \in 1..3 |-> VecMle(e.dots[2 * j - 1][t] \o e.dots[2 * j][t], v.rand)]])
    [] e.op = "pb_verify" -> LET v == PbRun(e.pf, e.claims, e.dclaims, e.len, ch)
                             IN IF e.ok THEN v.ok /\ v.k = NumCh /\ Binds(e.log, v.need) /\ e.rand = v.rand /\ e.prods = v.claims /\ e.dots3 = v.dots3 ELSE ~v.ok
    [] OTHER -> FALSE
\* what both sides of one protocol saw is the same
Twin == "twin" \in DOMAIN e => (e.ok => SameLog(e.log, Ev[e.twin].log))
TNext == \/ l <= Len(Ev) /\ Op /\ Twin /\ l' = l + 1 /\ UNCHANGED prog
         \/ l = Len(Ev) + 1 /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
TypeOK == l \in 1..(Len(Ev) + 1)
=============================================================================
