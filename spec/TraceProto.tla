----------------------------- MODULE TraceProto -----------------------------
(* Recorded runs of provers and verifiers.  A verifier's answer has to be the specification's for the same
   statement, proof elements and challenges; what an accepting verifier and an honest prover absorbed has
   to bind everything; what the prover saw is what the verifier sees. *)
EXTENDS Hide, Snark, TLC, Json, IOUtils
Progs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES prog, l
tvars == <<prog, l>>
Ev == Progs[prog].ev
e == Ev[l]
Has(k) == k \in DOMAIN e
TInit == l = 1 /\ prog \in 1..Len(Progs)
\* a standalone protocol's transcript starts with a seed
ch == Chs(e.log)
g == e.g
Answer(v) == IF e.ok THEN v.ok /\ Len(ch) = Len(v.need) /\ Binds(e.log, v.need) ELSE ~v.ok
\* a prover may refuse a false statement
Honest(v) == IF e.true THEN v.ok /\ Len(ch) = Len(v.need) /\ Binds(e.log, v.need) ELSE ~v.ok
Made == e.op \in {"know_p", "eq_p", "prod_p", "dot_p", "log_p", "open_p"}
SysOf(x) == [nc |-> x.nc, nv |-> x.nv, ni |-> x.ni, A |-> x.A, B |-> x.B, C |-> x.C]
\* the matrix as a function of its places
Cells(M) == {<<M[i][1], M[i][2]>> : i \in 1..Len(M)}
At(M, x) == FSum([i \in 1..Len(M) |-> IF <<M[i][1], M[i][2]>> = x THEN M[i][3] ELSE F0])
SameMat(M, M2) == \A x \in Cells(M) \cup Cells(M2) : At(M, x) = At(M2, x)
SameSys(x, y) == LET u == Pad(SysOf(x)) v == Pad(SysOf(y))
                 IN u.nc = v.nc /\ u.nv = v.nv /\ u.ni = v.ni /\ SameMat(u.A, v.A) /\ SameMat(u.B, v.B) /\ SameMat(u.C, v.C)
Sys == [nc |-> e.nc, nv |-> e.nv, ni |-> e.ni, A |-> e.A, B |-> e.B, C |-> e.C]
Comm1(x, r) == Enc(Commit(g.one, <<x>>, r))
ZkDeg == IF e.op = "zkq_p" THEN 2 ELSE 3
ZkTs == IF e.op = "zkq_p" THEN <<e.A, e.B>> ELSE <<e.A, e.B, e.C, e.D>>
ZkG == IF e.degree = 2 THEN g.three ELSE g.four
\* the random numbers the prover drew: what its own transcripts squeezed
Draws == UNION {{Wide(e.tapes[i][j][3]) : j \in {k \in 1..Len(e.tapes[i]) : e.tapes[i][k][1] = "c"}} : i \in 1..Len(e.tapes)}
HidesUnder(gn, pt, xs) == \E d \in Draws : d # F0 /\ Enc(Commit(gn, xs, d)) = pt
Satisfied == Len(e.vars) <= VarsPadded(Sys) /\ Len(e.inputs) = e.ni
             /\ Sat(Sys, IF Len(e.vars) >= e.nv THEN SubSeq(e.vars, 1, e.nv) ELSE PadVars(e.vars, e.nv), e.inputs)
Nizk(log) == NizkRun(Sys, e.digest, e.inputs, g, e.pf, Chs(log))
Decision(log) == IF e.ok THEN LET v == Nizk(log) IN v.ok /\ Binds(log, v.need) ELSE ~Nizk(log).ok
Snark(log) == SnarkRun(e.commv, e.inputs, g, e.pf, Chs(log))
Evaluation == EvalRun(g, e.commv.comm, e.rx, e.ry, e.evals, e.pf, ch)
MatrixValues == LET p == Pad(Sys) IN <<MatMle(p.A, e.rx, e.ry), MatMle(p.B, e.rx, e.ry), MatMle(p.C, e.rx, e.ry)>>
ItemNeeds(items) == NeedsOf(items, Lagrange)
Elements2(s) == {s[i] : i \in 1..Len(s)}
Op ==
  CASE Made /\ ~e.ok -> ~e.true
    [] e.op = "know_p" -> e.C = Comm1(e.x, e.r) /\ Honest(KnowRun(g.one, e.C, e.pf, ch))
    [] e.op = "eq_p" -> e.C1 = Comm1(e.v1, e.s1) /\ e.C2 = Comm1(e.v2, e.s2) /\ Honest(EqRun(g.one, e.C1, e.C2, e.pf, ch))
    [] e.op = "prod_p" -> e.X = Comm1(e.x, e.rx) /\ e.Y = Comm1(e.y, e.ry) /\ e.Z = Comm1(e.z, e.rz) /\ Honest(ProdRun(g.one, e.X, e.Y, e.Z, e.pf, ch))
    [] e.op = "dot_p" -> e.Cx = Enc(Commit(g.n, e.x, e.rx)) /\ e.Cy = Comm1(e.y, e.ry) /\ Honest(DotRun(g.one, g.n, e.a, e.Cx, e.Cy, e.pf, ch))
    [] e.op = "log_p" -> /\ e.Cx = Enc(Commit([G |-> SubSeq(g.log.G, 1, Len(e.x)), h |-> g.log.h], e.x, e.rx))
                         /\ e.Cy = Enc(Commit(ValueGens(g.log), <<e.y>>, e.ry))
                         /\ Honest(LogRun(g.log, e.a, e.Cx, e.Cy, e.pf, ch))
    [] e.op = "open_p" -> /\ e.czr = Enc(Commit(ValueGens(g.log), <<e.zr>>, e.br))
                          /\ Honest(OpenRun(g.log, e.commv, e.r, e.czr, e.pf, ch))
                          \* each row is committed to under a blinding that was drawn (or none was asked for)
                          /\ LET R == Len(e.z) \div Len(e.commv)
                                 gr == [G |-> SubSeq(g.log.G, 1, R), h |-> g.log.h]
                                 Row(i) == SubSeq(e.z, (i - 1) * R + 1, i * R)
                             IN \A i \in 1..Len(e.commv) : IF e.blind THEN HidesUnder(gr, e.commv[i], Row(i)) ELSE e.commv[i] = Enc(Commit(gr, Row(i), F0))
    [] e.op \in {"zkq_p", "zkc_p"} ->
         LET v == ZkRun(g.one, ZkG, ZkDeg, e.cclaim, Log2(Len(e.A)), e.pf, ch)
             right == e.claim = ZkTotal(e.f, ZkTs)
             h == ZkHonest(e.f, ZkTs, ZkDeg, v.r)
             n == Len(h.evals)
         IN /\ e.cclaim = Comm1(e.claim, e.bclaim)
            /\ e.finals = [k \in 1..Len(ZkTs) |-> VecMle(ZkTs[k], e.r)]
            /\ right => /\ e.ok /\ v.ok /\ Len(ch) = Len(v.need) /\ Binds(e.log, v.need) /\ e.r = v.r
                        /\ \A i \in 1..n : HidesUnder(ZkG, e.pf.polys[i], h.polys[i]) /\ HidesUnder(g.one, e.pf.evals[i], <<h.evals[i]>>)
                        /\ n > 0 => e.pf.evals[n] = Comm1(h.evals[n], e.blind)
    [] e.op = "know_v" -> Answer(KnowRun(g.one, e.C, e.pf, ch))
    [] e.op = "eq_v" -> Answer(EqRun(g.one, e.C1, e.C2, e.pf, ch))
    [] e.op = "prod_v" -> Answer(ProdRun(g.one, e.X, e.Y, e.Z, e.pf, ch))
    [] e.op = "dot_v" -> Answer(DotRun(g.one, g.n, e.a, e.Cx, e.Cy, e.pf, ch))
    [] e.op = "log_v" -> Answer(LogRun(g.log, e.a, e.Cx, e.Cy, e.pf, ch))
    [] e.op = "open_v" -> Answer(OpenRun(g.log, e.commv, e.r, IF Has("plain") THEN Enc(Commit(ValueGens(g.log), <<e.plain>>, F0)) ELSE e.czr, e.pf, ch))
    [] e.op = "zk_v" -> LET v == ZkRun(g.one, ZkG, e.degree, e.cclaim, e.rounds, e.pf, ch)
                        IN IF e.ok THEN v.ok /\ e.ceval = v.claim /\ e.r = v.r /\ Len(ch) = Len(v.need) /\ Binds(e.log, v.need) ELSE ~v.ok
    [] e.op = "nizk_p" -> IF ~e.ok THEN ~Satisfied ELSE LET v == Nizk(e.log) IN IF Satisfied THEN v.ok /\ Binds(e.log, v.need) ELSE ~v.ok
    [] e.op = "nizk_v" -> Decision(e.log)
    \* an honest proof of a true statement, its blindings and nonces solved for
    [] e.op = "hide_p" -> Satisfied => e.ok /\ Fresh(HBlinds(Sys, e.vars, e.inputs, g, e.pf.sat, ch, Draws), Draws)
    \* proofs of one statement: seeds of their randomness and what they contain
    [] e.op = "fresh" -> \A i \in 1..Len(e.seeds) : /\ e.seeds[i] # "0"
                                                   /\ \A j \in 1..(i - 1) : e.seeds[i] # e.seeds[j] /\ Elements2(e.leaves[i]) \cap Elements2(e.leaves[j]) = {}
    \* through the WebAssembly entry points
    [] e.op = "wasm_p" -> ~e.ok => ~Satisfied
    [] e.op = "wasm_v" -> Len(e.tapes) <= 1 /\ Decision(IF e.tapes = <<>> THEN <<>> ELSE e.tapes[1])
    \* committed circuits
    [] e.op = "snark_e" -> e.ok /\ e.commv = SparseComm(Sys, g)
    [] e.op = "snark_p" -> IF ~e.ok THEN ~Satisfied ELSE LET v == Snark(e.log) IN IF Satisfied THEN v.ok /\ Binds(e.log, v.need) ELSE ~v.ok
    [] e.op = "snark_v" -> IF e.ok THEN LET v == Snark(e.log) IN v.ok /\ Binds(e.log, v.need) ELSE ~Snark(e.log).ok
    [] e.op = "eval_p" -> /\ e.commv = SparseComm(Sys, g)
                          /\ LET v == Evaluation t == MatrixValues IN IF e.evals = t THEN e.ok /\ v.ok /\ Binds(e.log, v.need) ELSE e.ok => ~v.ok
    [] e.op = "eval_v" -> LET v == Evaluation IN IF e.ok THEN v.ok /\ Len(ch) = v.used /\ Binds(e.log, v.need) ELSE ~v.ok
    \* bytes that are no proof
    [] e.op = "raw_v" -> ~e.ok
    \* every item is absorbed with all its numbers and points, between the challenges it stands between
    [] e.op = "tr" -> e.ok /\ e.chs = Chs(e.log) /\ Binds(e.log, ItemNeeds(e.items))
    \* and different items differently
    [] e.op = "trs" -> \A i, j \in 1..Len(e.seqs) : i < j => (e.seqs[i] = e.seqs[j] <=> e.logs[i] = e.logs[j])
    \* systems have the same digest only if they are the same; the same system always has the same one
    [] e.op = "digests" -> \A i, j \in 1..Len(e.sys) : IF e.sys[i] = e.sys[j] THEN e.digest[i] = e.digest[j] ELSE e.digest[i] = e.digest[j] => SameSys(e.sys[i], e.sys[j])
    [] OTHER -> FALSE
Twin == Has("twin") => (e.ok => SameLog(e.log, Ev[e.twin].log))
\* an honest proof of a true statement has to be accepted
Must == Has("must") => e.ok
TNext == \/ l <= Len(Ev) /\ Op /\ Twin /\ Must /\ l' = l + 1 /\ UNCHANGED prog
         \/ l = Len(Ev) + 1 /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
TypeOK == l \in 1..(Len(Ev) + 1)
=============================================================================
