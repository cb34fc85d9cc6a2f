------------------------------- MODULE Snark -------------------------------
(* The succinct proof: the matrices are committed to once, as lists of entries together with the time
   stamps of a memory that is read at every entry's row and column; a proof then shows the matrices'
   values at a point by looking up the equality tables of that point in this memory.

   A commitment is [num_ops, num_mem_cells, ops, mem]; gs has the generators [ops, mem, derefs]. *)
EXTENDS R1csProof, Sumcheck
\* ------------------------------------------------------------------ the commitment
(* Entry i reads the cell its row (column) names.  The cell's time stamp is the number of reads before;
   the memory is shared by the three matrices, one after the other. *)
Places(M, k, n) == [i \in 1..n |-> IF i <= Len(M) THEN M[i][k] ELSE 0]
Reads(as, cells) ==
  FoldLeft(LAMBDA s, a :
             LET one == FoldLeft(LAMBDA t, x : Now([rd |-> Append(t.rd, t.cnt[x + 1]), cnt |-> [t.cnt EXCEPT ![x + 1] = @ + 1]]), [rd |-> <<>>, cnt |-> s.cnt], a)
             IN Now([rd |-> Append(s.rd, one.rd), cnt |-> one.cnt]),
           [rd |-> <<>>, cnt |-> [i \in 1..cells |-> 0]], as)
Ints(v) == [i \in 1..Len(v) |-> F(v[i])]
SparseDense(Ms, cells) ==
  LET n == MaxOf(2, Pow2Ceil(FoldLeft(LAMBDA a, M : MaxOf(a, Len(M)), 1, Ms)))
      m == Len(Ms)
      rows == Now([j \in 1..m |-> Places(Ms[j], 1, n)])
      cols == Now([j \in 1..m |-> Places(Ms[j], 2, n)])
      rr == Reads(rows, cells)
      cr == Reads(cols, cells)
      vals == [j \in 1..m |-> [i \in 1..n |-> IF i <= Len(Ms[j]) THEN Ms[j][i][3] ELSE F0]]
      all(s) == [j \in 1..m |-> Ints(s[j])]
  IN Now([n |-> n, rows |-> rows, cols |-> cols, vals |-> vals, rowReads |-> rr.rd, colReads |-> cr.rd, rowCnt |-> rr.cnt, colCnt |-> cr.cnt,
          ops |-> Merge(all(rows) \o all(rr.rd) \o all(cols) \o all(cr.rd) \o vals), mem |-> Ints(rr.cnt) \o Ints(cr.cnt)])
\* rows of a table, committed to without blinding
RowComms(g, z) == LET R == Len(g.G) - 1 IN [i \in 1..(Len(z) \div R) |-> Enc(GMsm(SubSeq(z, (i - 1) * R + 1, i * R), SubSeq(Pts(g.G), 1, R)))]
CellsOf(p) == MaxOf(p.nc, 2 * p.nv)
(* The lists of entries of a system: those of its matrices; with less than two constraints they are filled
   up with zeros to one entry per row. *)
Filled(sys, M) == IF sys.nc > 1 THEN M ELSE M \o [i \in 1..(2 - Len(M)) |-> <<Len(M) + i - 1, sys.nv, F0>>]
SparseComm(sys, gs) ==
  LET p == Pad(sys)
      d == SparseDense(<<Filled(sys, p.A), Filled(sys, p.B), Filled(sys, p.C)>>, CellsOf(p))
  IN [num_cons |-> p.nc, num_vars |-> p.nv, num_inputs |-> p.ni,
      comm |-> [batch_size |-> 3, num_ops |-> d.n, num_mem_cells |-> CellsOf(p), ops |-> RowComms(gs.ops, d.ops), mem |-> RowComms(gs.mem, d.mem)]]

\* ------------------------------------------------------------------ values of the committed matrices
PadLeft(r, k) == [i \in 1..(k - Len(r)) |-> F0] \o r
Hash(addr, val, ts, g1, g2) == FSub(FAdd(FMul(ts, FSq(g1)), FAdd(FMul(val, g1), addr)), g2)
FPlus1(x) == FAdd(x, F1)
(* Several values of one table at r, opened as one: joined by fresh challenges.  The table is the values'
   tables one after the other. *)
JointRun(g, C, evals, r, pf, ch) ==
  LET v == Merge(<<evals>>)
      k == Log2(Len(v))
  IN IF Len(ch) < k THEN [ok |-> FALSE, used |-> 0, need |-> <<>>] ELSE
  LET c == SubSeq(ch, 1, k)
      at == c \o r
      cz == Enc(GMul(VecMle(v, c), Pt(g.G[Len(g.G)])))
      o == OpenRun(g, C, at, cz, pf, Drop(ch, k))
  IN [ok |-> o.ok, used |-> k + LogChs(Len(g.G) - 1),
      need |-> (IF k = 0 THEN <<Bytes(evals)>> ELSE <<Bytes(evals)>> \o [i \in 1..(k - 1) |-> <<>>] \o <<<<>>>>) \o (IF o.ok THEN Tail(o.need) ELSE <<>>)]

Chunk(s, i, n) == SubSeq(s, (i - 1) * n + 1, i * n)
EvalRun(gs, C, rx0, ry0, evals, pf, ch) ==
  LET m == Len(evals)
      k == MaxOf(Len(rx0), Len(ry0))
      rx == PadLeft(rx0, k)
      ry == PadLeft(ry0, k)
      bad == [ok |-> FALSE, used |-> 0, need |-> <<>>]
      q == pf.prod
      h == pf.hash
      full(v) == Len(v) = m
      Balanced(s) == full(s[2]) /\ full(s[3]) /\ FMul(s[1], FProd(s[3])) = FMul(FProd(s[2]), s[4])
  IN IF \/ C.num_mem_cells # 2 ^ k \/ Len(ch) < 2
        \/ ~Balanced(q.row) \/ ~Balanced(q.col)
        \/ \E i \in 1..2 : ~full(q.val[i]) \/ ~full(h.row[i]) \/ ~full(h.col[i]) \/ ~full(h.derefs[i])
        \/ ~full(h.val)
        \/ \E i \in 1..m : FAdd(q.val[1][i], q.val[2][i]) # evals[i]
        \/ ~Decodes(pf.comm_derefs)
     THEN bad ELSE
  LET g1 == ch[1]
      g2 == ch[2]
      dots == CatAll([i \in 1..m |-> <<q.val[1][i], q.val[2][i]>>])
      po == PbRun(q.proof_ops, q.row[2] \o q.row[3] \o q.col[2] \o q.col[3], dots, Pow2Ceil(C.num_ops), Drop(ch, 2))
      pm == PbRun(q.proof_mem, <<q.row[1], q.row[4], q.col[1], q.col[4]>>, <<>>, C.num_mem_cells, Drop(ch, 2 + po.k))
      o1 == 2 + po.k + pm.k
  IN IF ~po.ok \/ ~pm.ok THEN bad ELSE
  LET jd == JointRun(gs.derefs, pf.comm_derefs, h.derefs[1] \o h.derefs[2], po.rand, h.proof_derefs, Drop(ch, o1)) IN IF ~jd.ok THEN bad ELSE
  LET jo == JointRun(gs.ops, C.ops, h.row[1] \o h.row[2] \o h.col[1] \o h.col[2] \o h.val, po.rand, h.proof_ops, Drop(ch, o1 + jd.used)) IN IF ~jo.ok THEN bad ELSE
  LET jm == JointRun(gs.mem, C.mem, <<h.row[3], h.col[3]>>, pm.rand, h.proof_mem, Drop(ch, o1 + jd.used + jo.used))
      \* one memory: its product claims, the values looked up, addresses and time stamps, the point
      Mem(init, audit, rd, wr, val, s, r) ==
        LET addr == IdentityAt(pm.rand) cell == EqAt(r, pm.rand) IN
        /\ init = Hash(addr, cell, F0, g1, g2)
        /\ audit = Hash(addr, cell, s[3], g1, g2)
        /\ \A i \in 1..m : rd[i] = Hash(s[1][i], val[i], s[2][i], g1, g2) /\ wr[i] = Hash(s[1][i], val[i], FPlus1(s[2][i]), g1, g2)
      absorbed == Bytes(<<q.row[1]>> \o q.row[2] \o q.row[3] \o <<q.row[4], q.col[1]>> \o q.col[2] \o q.col[3] \o <<q.col[4]>> \o dots)
      needO == <<absorbed>> \o Tail(po.need)
  IN [ok |-> /\ jm.ok
             /\ \A i \in 1..m : SubSeq(po.dots3, 3 * i - 2, 3 * i) = <<h.derefs[1][i], h.derefs[2][i], h.val[i]>>
             /\ Mem(pm.claims[1], pm.claims[2], Chunk(po.claims, 1, m), Chunk(po.claims, 2, m), h.derefs[1], h.row, rx)
             /\ Mem(pm.claims[3], pm.claims[4], Chunk(po.claims, 3, m), Chunk(po.claims, 4, m), h.derefs[2], h.col, ry),
      used |-> o1 + jd.used + jo.used + jm.used,
      need |-> <<pf.comm_derefs, <<>>>> \o needO \o pm.need \o jd.need \o jo.need \o jm.need]

\* ------------------------------------------------------------------ the proof
U64(n) == BToLE(BOf(n), 8)
CommNeed(c) == <<U64(c.num_cons), U64(c.num_vars), U64(c.num_inputs), U64(c.comm.batch_size), U64(c.comm.num_ops), U64(c.comm.num_mem_cells)>> \o c.comm.ops \o c.comm.mem
SnarkRun(c, inputs, gs, pf, ch) ==
  LET s == SatRun(c.num_cons, c.num_vars, inputs, LAMBDA rx, ry : pf.evals, CommNeed(c), gs, pf.sat, ch) IN
  IF ~s.ok \/ Len(inputs) # c.num_inputs THEN [s EXCEPT !.ok = FALSE] ELSE
  LET v == EvalRun(gs, c.comm, s.rx, s.ry, pf.evals, pf.eval, Drop(ch, s.used))
  IN [s EXCEPT !.ok = v.ok /\ s.used + v.used = Len(ch), !.used = @ + v.used, !.need = IF v.ok THEN s.need \o <<Bytes(pf.evals) \o v.need[1]>> \o Tail(v.need) ELSE <<>>]
=============================================================================
