------------------------------ MODULE TraceE2E ------------------------------
(* The whole system: a tree of members kept by the library, signatures, the prover and the verifier of the
   library, the circuits of the repository, the proof system.  A proof is known by the file it was kept in. *)
EXTENDS TraceLib, Keccak
VARIABLES circs,      \* circuit and generator files: path -> [kind, depth]
          made        \* proofs: file -> what it is a proof of
evars == <<prog, l, zeros, trees, who, circs, made>>
EInit == TInit /\ circs = <<>> /\ made = <<>>

AddrOf(X) == BFromBE(HexSub(Keccak256(HexCat(BToBE(X[1], 32), BToBE(X[2], 32))), 12, 32))
LeafOf(kind, X) == IF kind = "addr" THEN AddrOf(X) ELSE PH(X[1], X[2])
Nothing == [kind |-> "none"]
\* s, together with a path, is what the circuit asks for: the key s T + U is under the root
Shows(c, s, T, U, root, path, sib) ==
  LET X == KeyOf(s, T, U)
  IN /\ Len(path) = c.depth /\ Len(sib) = c.depth /\ \A k \in 1..Len(path) : path[k] \in {0, 1}
     /\ X # <<>> /\ Leads(LeafOf(c.kind, X), path, sib, root)
Stmt(c, p) == [kind |-> c.kind, depth |-> c.depth, five |-> Five(p)]
Sibs(mp) == [k \in 1..Len(mp.siblings) |-> mp.siblings[k][1]]

\* a proof is asked for.  If the signature and the path are right there is one, and it is a proof of the
\* five values.  If not, an honest witness generator stops; whatever else comes out proves nothing
Outcome(good, c, pub) ==
  IF good THEN ~Threw /\ made' = (e.keep :> Stmt(c, pub)) @@ made
  ELSE /\ (e.honest => Threw)
       /\ made' = (IF Threw THEN made ELSE (e.keep :> Nothing) @@ made)
ProveForStep ==
  LET m == NumOfMsg(e.m)
      T == TOf(e.r, e.v) U == UOf(e.r, m)
      pub == [r |-> e.r, v |-> e.v, m |-> m, root |-> e.proof.root, Tx |-> T[1], Ty |-> T[2], Ux |-> U[1], Uy |-> U[2]]
      c == circs[me.circuit]
  IN IF ~Defined(e.r, m) THEN Threw /\ UNCHANGED made
     ELSE /\ Outcome(c = circs[me.gen] /\ Shows(c, e.s, T, U, e.proof.root, e.proof.path, Sibs(e.proof)), c, pub)
          /\ (~Threw => SameFields(e.out, pub) /\ e.out.m = e.m /\ e.out.h = Ser(pub, e.m))
\* a prover who does not use the library, and chooses T and U
RawProveStep ==
  LET i == e.in c == circs[e.circuit]
      sib == [k \in 1..Len(i.siblings) |-> i.siblings[k]]
  IN Outcome(Shows(c, i.s, <<i.Tx, i.Ty>>, <<i.Ux, i.Uy>>, i.root, i.pathIndices, sib), c, i)

\* yes exactly for a proof, unchanged (but for how it is encoded), for the circuit the verifier has, of the five values of a public input
\* whose T and U are those of r, v and the message
Proves(pf, c, h) == pf \in DOMAIN made /\ made[pf] = Stmt(c, Deser(h, N(0)))
JudgeStep ==
  IF HexLen(e.h) < HeadLen THEN No
  ELSE IF (~Has("flip") \/ (Has("same") /\ e.same)) /\ Proves(e.pf, circs[me.circuit], e.h) /\ Matches(Deser(e.h, NumOfMsg(MsgAt(e.h))))
  THEN ~Threw /\ e.out = TRUE
  ELSE IF Matches(Deser(e.h, NumOfMsg(MsgAt(e.h)))) THEN ~Threw /\ e.out = FALSE
  ELSE No

EStep ==
  CASE e.op = "circuit" -> e.ok /\ circs' = (e.path :> [kind |-> e.kind, depth |-> e.depth]) @@ circs /\ UNCHANGED made /\ Same
    [] e.op = "provefor" -> ProveForStep /\ UNCHANGED circs /\ Same
    [] e.op = "rawprove" -> RawProveStep /\ UNCHANGED circs /\ Same
    [] e.op = "judge" -> JudgeStep /\ UNCHANGED <<circs, made>> /\ Same
    [] OTHER -> Step /\ UNCHANGED <<circs, made>>
ENext == \/ /\ l <= Len(Ev) /\ EStep /\ l' = l + 1 /\ UNCHANGED <<prog, zeros>>
         \/ l = Len(Ev) + 1 /\ UNCHANGED evars
ESpec == EInit /\ [][ENext]_evars
=============================================================================
