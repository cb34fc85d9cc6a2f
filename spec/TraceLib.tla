------------------------------ MODULE TraceLib ------------------------------
(* Recordings of the TypeScript library: what it was asked, what it answered, and what it passed to the
   witness generator and to the proof system. *)
EXTENDS Lib, Merkle, Poseidon, TLC, Json, IOUtils
Progs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES prog, l,
          zeros,      \* the zero levels (computed once)
          trees,      \* of the program: name -> [depth, lv]
          who         \* provers and verifiers: name -> [circuit, gen, remote]
vars == <<prog, l, zeros, trees, who>>
Ev == Progs[prog].ev
e == Ev[l]
Has(k) == k \in DOMAIN e
Threw == Has("panic")
No == IF Threw THEN TRUE ELSE e.out = FALSE       \* refused, one way or the other
HasTrees == \E k \in 1..Len(Ev) : Ev[k].op = "tree"
MaxTree == LET ds == {Ev[k].depth : k \in {j \in 1..Len(Ev) : Ev[j].op = "tree"}} IN CHOOSE d \in ds : \A x \in ds : x <= d
Same == UNCHANGED <<trees, who>>
TInit == l = 1 /\ prog \in 1..Len(Progs) /\ trees = <<>> /\ who = <<>> /\ zeros = (IF HasTrees THEN ZeroLevels(MaxTree) ELSE <<>>)

\* the hash of a tree and of a key
PH(x, y) == Now(Hash2(x, y))
PZero == N(0)
NumOfMsg(h) == BFromBE(h)
WithNum(p) == [r |-> p.r, v |-> p.v, m |-> NumOfMsg(p.m), root |-> p.root, Tx |-> p.Tx, Ty |-> p.Ty, Ux |-> p.Ux, Uy |-> p.Uy]
Byte(v) == BLt(v, N(256))
Short(x) == BLt(x, BPow2(8 * W))
Fits(p) == Short(p.r) /\ Byte(p.v) /\ \A k \in 1..5 : Short(Five(p)[k])
SameFields(f, g) == \A k \in {"r", "v", "root", "Tx", "Ty", "Ux", "Uy"} : f[k] = g[k]

\* ---- public values
PubStep == LET m == NumOfMsg(e.m) IN
  IF Defined(e.r, m)
  THEN /\ ~Threw
       /\ <<e.out.Tx, e.out.Ty>> = TOf(e.r, e.v) /\ <<e.out.Ux, e.out.Uy>> = UOf(e.r, m)
       /\ "d" \in DOMAIN e => /\ KeyOf(e.s, TOf(e.r, e.v), UOf(e.r, m)) = Times(e.d, G)
                              /\ KeyOf(e.s, <<e.out.Tx, e.out.Ty>>, <<e.out.Ux, e.out.Uy>>) = Times(e.d, G)
  \* r is no x-coordinate, or there is nothing to write down: no answer
  ELSE InRange(e.r) => Threw
CheckStep == LET p == WithNum(e) IN
  IF Defined(p.r, p.m) THEN ~Threw /\ e.out = Matches(p)
  ELSE InRange(p.r) => No

\* ---- serialised form
SerStep == LET p == WithNum(e) IN
  Fits(p) => /\ ~Threw /\ e.h = Ser(p, e.m) /\ e.c = SerFive(p)
             /\ SameFields(e.back, p) /\ e.back.m = e.m /\ e.intact
DeserStep ==
  HexLen(e.h) >= HeadLen => /\ ~Threw /\ SameFields(e.out, Deser(e.h, N(0))) /\ e.out.m = MsgAt(e.h)
                            /\ e.h2 = e.h /\ e.c2 = Part(e.h, W + 1, HeadLen) /\ e.intact
ToBytesStep == ~Has("absent") => (BLt(e.n, BPow2(8 * e.size)) => ~Threw /\ e.h = IF e.le THEN BToLE(e.n, e.size) ELSE BToBE(e.n, e.size))
ToIntStep == ~Has("absent") => (~Threw /\ e.n = (IF e.le THEN BFromLE(e.h) ELSE BFromBE(e.h)) /\ e.intact)
SigStep == ~Has("absent") => (~Threw /\ e.r = e.wr /\ e.s = e.ws /\ e.v = e.wv)

\* ---- trees
tr == trees[e.t]
TreeStep ==
  CASE e.op = "tree" -> ~Threw /\ trees' = (e.t :> [depth |-> e.depth, lv |-> <<>>]) @@ trees
    [] e.op = "insert" -> IF HasRoom(tr.lv, tr.depth) THEN ~Threw /\ trees' = [trees EXCEPT ![e.t].lv = Inserted(@, e.leaf)]
                          ELSE Threw /\ UNCHANGED trees
    [] e.op = "delete" -> IF IsPos(tr.lv, e.i) THEN ~Threw /\ trees' = [trees EXCEPT ![e.t].lv = Deleted(@, e.i)]
                          ELSE Threw /\ UNCHANGED trees
    [] e.op = "leaves" -> ~Threw /\ e.out = tr.lv /\ UNCHANGED trees
    [] e.op = "root" -> ~Threw /\ e.out = RootOf(zeros, tr.lv, tr.depth) /\ UNCHANGED trees
    [] e.op = "indexOf" -> ~Threw /\ e.out = FirstAt(tr.lv, e.leaf) /\ UNCHANGED trees
    [] e.op = "proof" ->
         /\ UNCHANGED trees
         /\ IF IsPos(tr.lv, e.i)
            THEN /\ ~Threw /\ e.out.root = RootOf(zeros, tr.lv, tr.depth) /\ e.out.path = PathFrom(e.i, tr.depth)
                 /\ e.out.siblings = [k \in 1..tr.depth |-> <<SiblingAt(zeros, tr.lv, e.i, k - 1)>>]
            ELSE Threw
    [] e.op = "checkProof" ->
         /\ UNCHANGED trees
         /\ ~Threw /\ e.out = Leads(e.leaf, e.proof.path, [k \in 1..Len(e.proof.siblings) |-> e.proof.siblings[k][1]], e.proof.root)
HashStep == ~Threw /\ e.out = Hash2(e.in[1], e.in[2])
HashPkStep == ~Threw /\ e.out = Hash2(BFromBE(HexSub(e.h, 0, 32)), BFromBE(HexSub(e.h, 32, 64)))

\* ---- provers and verifiers.  e.answer says what the file system, the network, the witness generator and
\* the proof system answered
ActorStep == ~Threw /\ who' = (e.a :> [circuit |-> e.circuit, remote |-> Has("remote") /\ e.remote, gen |-> IF Has("gen") THEN e.gen ELSE "",
                                       window |-> Has("window") /\ e.window]) @@ who /\ UNCHANGED trees
me == who[e.a]
Answers(k) == "answer" \in DOMAIN e /\ k \in DOMAIN e.answer
Fails(k) == Answers(k) /\ "throw" \in DOMAIN e.answer[k]
Calls(f) == IF Has("calls") THEN SelectSeq(e.calls, LAMBDA x : x.fn = f) ELSE <<>>
\* where the circuit comes from, and its bytes
Remote(a, now) == a.remote \/ a.window \/ now
LoadFails(rem) == IF rem THEN Fails("fetch") ELSE e.file = "none"
CircuitBytes(rem) == IF rem THEN e.answer.fetch.bytes ELSE e.file
Loaded(rem) == IF rem THEN Calls("fetch") # <<>> /\ \A k \in 1..Len(Calls("fetch")) : Calls("fetch")[k].url = me.circuit ELSE Calls("fetch") = <<>>

ProveStep ==
  LET now == Has("window") /\ e.window
      rem == Remote(me, now)
      m == NumOfMsg(e.m)
      T == TOf(e.r, e.v) U == UOf(e.r, m)
      pub == [r |-> e.r, v |-> e.v, m |-> m, root |-> e.proof.root, Tx |-> T[1], Ty |-> T[2], Ux |-> U[1], Uy |-> U[2]]
      wcalls == Calls("witness") pcalls == Calls("prove")
      w == wcalls[1].input
  IN IF ~Defined(e.r, m) THEN (InRange(e.r) => Threw)
     ELSE IF Fails("witness") \/ LoadFails(rem) \/ Fails("prove") THEN Threw
     ELSE /\ ~Threw /\ Len(wcalls) = 1 /\ Len(pcalls) = 1
          /\ wcalls[1].file = me.gen
          /\ DOMAIN w = {"s", "root", "pathIndices", "siblings", "Tx", "Ty", "Ux", "Uy"}
          /\ w.s.n = e.s /\ w.root.n = e.proof.root /\ w.pathIndices = e.proof.path
          /\ w.siblings = [k \in 1..Len(e.proof.siblings) |-> <<[n |-> e.proof.siblings[k][1]]>>]
          /\ <<w.Tx.n, w.Ty.n>> = T /\ <<w.Ux.n, w.Uy.n>> = U
          /\ Loaded(rem)
          /\ pcalls[1].circuit = CircuitBytes(rem) /\ pcalls[1].witness = e.answer.witness.bytes /\ pcalls[1].public = SerFive(pub)
          /\ e.out.proof = e.answer.prove.bytes
          /\ SameFields(e.out, pub) /\ e.out.m = e.m /\ e.out.h = Ser(pub, e.m)

Verdict(h, p, says, c) == \* the circuit c, the public input h, the proof p, and what the proof system says
  HexLen(h) >= HeadLen /\ says /\ Matches(Deser(h, NumOfMsg(MsgAt(h))))
VerifyStep ==
  LET rem == Remote(me, FALSE)
      says == ~Fails("verify") /\ e.answer.verify.value
      vcalls == Calls("verify")
  IN /\ (~Threw => e.intact)
     /\ IF HexLen(e.h) < HeadLen THEN No
        ELSE IF LoadFails(rem) THEN No
        ELSE IF Verdict(e.h, e.p, says, "")
        THEN /\ ~Threw /\ e.out = TRUE /\ Loaded(rem)
             /\ \E k \in 1..Len(vcalls) : vcalls[k].circuit = CircuitBytes(rem) /\ vcalls[k].proof = e.p /\ vcalls[k].public = Part(e.h, W + 1, HeadLen)
        \* a proof check that fails or throws is a plain no
        ELSE IF Matches(Deser(e.h, NumOfMsg(MsgAt(e.h)))) THEN ~Threw /\ e.out = FALSE
        ELSE No
\* several at once: each has the answer it would have had alone.  The circuit file, the witness generator and the
\* proof system of such a history are symbolic: a proof is what it was made of, in one piece
Joined(xs) == FoldLeft(LAMBDA acc, x : Cat(acc, x), "", xs)
SymWitness(x, T, U) == Cat(Joined(<<Enc(x.s, W), Enc(x.proof.root, W), Enc(T[1], W), Enc(T[2], W), Enc(U[1], W), Enc(U[2], W)>>),
                           Cat(Joined([k \in 1..Len(x.proof.siblings) |-> Enc(x.proof.siblings[k][1], W)]), Joined([k \in 1..Len(x.proof.path) |-> Enc(N(x.proof.path[k]), 1)])))
ItemStep(x, o) ==
  IF x.kind = "verify"
  THEN LET says == [circuit |-> x.file, proof |-> x.p, public |-> Part(x.h, W + 1, HeadLen)] \in {e.answer.verify.good[k] : k \in 1..Len(e.answer.verify.good)}
       IN IF x.file # "none" /\ Verdict(x.h, x.p, says, "") THEN "out" \in DOMAIN o /\ o.out = TRUE ELSE ("out" \in DOMAIN o => o.out = FALSE)
  ELSE LET m == NumOfMsg(x.m)
           T == TOf(x.r, x.v) U == UOf(x.r, m)
           pub == [r |-> x.r, v |-> x.v, m |-> m, root |-> x.proof.root, Tx |-> T[1], Ty |-> T[2], Ux |-> U[1], Uy |-> U[2]]
       IN IF ~Defined(x.r, m) THEN (InRange(x.r) => "panic" \in DOMAIN o)
          ELSE IF x.file = "none" THEN "panic" \in DOMAIN o
          ELSE /\ "out" \in DOMAIN o
               /\ o.out.proof = Cat(x.file, Cat(SymWitness(x, T, U), SerFive(pub)))
               /\ SameFields(o.out, pub) /\ o.out.m = x.m /\ o.out.h = Ser(pub, x.m)
BothStep == \A k \in 1..Len(e.of) : ItemStep(e.of[k], e.outs[k])

Step ==
  CASE e.op = "pub" -> PubStep /\ Same
    [] e.op = "check" -> CheckStep /\ Same
    [] e.op = "ser" -> SerStep /\ Same
    [] e.op = "deser" -> DeserStep /\ Same
    [] e.op = "toBytes" -> ToBytesStep /\ Same
    [] e.op = "toInt" -> ToIntStep /\ Same
    [] e.op = "sig" -> SigStep /\ Same
    [] e.op = "init" -> ~Threw /\ Same
    [] e.op = "hash" -> HashStep /\ Same
    [] e.op = "hashpk" -> HashPkStep /\ Same
    [] e.op \in {"tree", "insert", "delete", "leaves", "root", "indexOf", "proof", "checkProof"} -> TreeStep /\ UNCHANGED who
    [] e.op \in {"prover", "verifier"} -> ActorStep
    [] e.op = "prove" -> ProveStep /\ Same
    [] e.op = "verify" -> VerifyStep /\ Same
    [] e.op = "both" -> BothStep /\ Same
    [] OTHER -> FALSE
TNext == \/ /\ l <= Len(Ev) /\ Step /\ l' = l + 1 /\ UNCHANGED <<prog, zeros>>
         \/ l = Len(Ev) + 1 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_vars
TypeOK == l >= 1
=============================================================================
