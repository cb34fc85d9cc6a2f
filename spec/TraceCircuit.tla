---------------------------- MODULE TraceCircuit ----------------------------
(* Assignments that satisfy the full-size circuits, with inputs and outputs.  Events marked own are the
   assignments the circuit's own hints give; the others are further assignments the constraints allow.
   (0, 0) stands for infinity. *)
EXTENDS Poseidon, Ec, Keccak, TLC, Json, IOUtils
CONSTANT Q                                    \* the order of the curve y^2 = x^3 + 7 over F_P
Progs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES prog, l
vars == <<prog, l>>
Ev == Progs[prog].ev
e == Ev[l]
TInit == l = 1 /\ prog \in 1..Len(Progs)

Pt(x, y) == IF x = F0 /\ y = F0 THEN <<>> ELSE <<x, y>>
Co(X) == IF X = <<>> THEN <<F0, F0>> ELSE X
Plus(X, Y) == EcAdd(P, F0, X, Y)
Times(k, X) == EcMul(P, F0, k, X)
OnCurve(X) == EcOnCurve(P, F0, N(7), X)
IsBit(v) == v \in {F0, F1}
KOf(s) == BMod(BAdd(s, BSub(BAdd(Q, Q), BPow2(256))), Q)
NumOf(o) == FoldRight(LAMBDA d, acc : BAdd(BAdd(acc, acc), d), o, N(0))
Key(i) == Plus(Times(i.s, Pt(i.Tx, i.Ty)), Pt(i.Ux, i.Uy))
AddrOf(X) == BFromBE(HexSub(Keccak256(HexCat(BToBE(Co(X)[1], 32), BToBE(Co(X)[2], 32))), 12, 32))
RootOf(leaf, path, sib) ==
  FoldLeft(LAMBDA acc, k : Now(IF path[k] = F0 THEN Hash2(acc, sib[k]) ELSE Hash2(sib[k], acc)), leaf, [k \in 1..Len(path) |-> k])
Binary(path) == \A k \in 1..Len(path) : IsBit(path[k])
LeafOf(X) == IF e.op = "addrmem" THEN AddrOf(X) ELSE Hash2(Co(X)[1], Co(X)[2])

\* the bits of a message or digest: bytes in order, each from its least significant bit
BytesOf(o) == FoldLeft(LAMBDA acc, k : HexCat(acc, BToBE(NumOf([j \in 1..8 |-> o[8 * (k - 1) + j]]), 1)), "", [k \in 1..(Len(o) \div 8) |-> k])

\* the inputs the property speaks of
In == e.in
Out == e.out
Domain ==
  CASE e.op = "add" -> OnCurve(Pt(In.xP, In.yP)) /\ OnCurve(Pt(In.xQ, In.yQ))
    [] e.op = "inc" -> OnCurve(<<In.xP, In.yP>>) /\ OnCurve(<<In.xQ, In.yQ>>) /\ In.xP # In.xQ
    [] e.op = "dbl" -> OnCurve(<<In.xP, In.yP>>)
    [] e.op = "mul" -> OnCurve(<<In.xP, In.yP>>) /\ BLt(In.scalar, Q)
    [] e.op = "k" -> BLt(In.s, P)
    [] e.op \in {"eff", "toaddr", "pkmem", "addrmem"} -> OnCurve(<<In.Tx, In.Ty>>) /\ OnCurve(Pt(In.Ux, In.Uy)) /\ BLt(In.s, Q)
    [] OTHER -> TRUE
\* a number in chunks of e.chunk bits, the least significant first
Chunk == BPow2(BInt(e.chunk))
Small == \A r \in 1..2 : \A k \in 1..Len(In.chunkedPubkey[r]) : BLt(In.chunkedPubkey[r][k], Chunk)
Whole(r) == FoldRight(LAMBDA d, acc : BAdd(BMul(acc, Chunk), d), In.chunkedPubkey[r], N(0))
Provable ==
  CASE e.op = "tree" -> Binary(In.pathIndices)
    [] e.op \in {"pkmem", "addrmem"} -> Binary(In.pathIndices) /\ In.root = RootOf(LeafOf(Key(In)), In.pathIndices, In.siblings)
    [] e.op = "flatten" -> Small
    [] OTHER -> TRUE
Right ==
  CASE e.op = "add" -> <<Out.outX, Out.outY>> = Co(Plus(Pt(In.xP, In.yP), Pt(In.xQ, In.yQ)))
    [] e.op = "inc" -> <<Out.outX, Out.outY>> = Co(Plus(<<In.xP, In.yP>>, <<In.xQ, In.yQ>>))
    [] e.op = "dbl" -> <<Out.outX, Out.outY>> = Co(Plus(<<In.xP, In.yP>>, <<In.xP, In.yP>>))
    [] e.op = "mul" -> <<Out.outX, Out.outY>> = Co(Times(In.scalar, <<In.xP, In.yP>>))
    [] e.op = "k" -> /\ Len(Out.out) = 256 /\ \A k \in 1..256 : IsBit(Out.out[k])
                     /\ IF BLt(In.s, Q) THEN NumOf(Out.out) = KOf(In.s) ELSE BMod(NumOf(Out.out), Q) = KOf(In.s)
    [] e.op = "eff" -> <<Out.pubKeyX, Out.pubKeyY>> = Co(Key(In))
    [] e.op = "toaddr" -> Out.addr = AddrOf(Key(In))
    [] e.op = "hash" -> Out.out = Hash2(In.inputs[1], In.inputs[2])
    [] e.op = "keccak" -> BytesOf(Out.out) = Keccak256(BytesOf(In.in))
    [] e.op = "flatten" -> Small /\ NumOf(Out.pubkeyBits) = BAdd(Whole(2), BMul(Whole(1), BPow2(256)))
    [] e.op = "addr" -> Out.address = BFromBE(HexSub(Keccak256(BToBE(NumOf(In.pubkeyBits), 64)), 12, 32))
    [] e.op = "tree" -> Binary(In.pathIndices) /\ Out.root = RootOf(In.leaf, In.pathIndices, In.siblings)
    [] e.op \in {"pkmem", "addrmem"} -> Binary(In.pathIndices) /\ In.root = RootOf(LeafOf(Key(In)), In.pathIndices, In.siblings)
    [] OTHER -> FALSE
\* a key, and a signature (r, s) on m made with nonce k: what the circuit gets, and what it must say
Signed ==
  LET g == <<e.gx, e.gy>>
      R == Times(e.k, g)
      r == BMod(R[1], Q)
      ri == BInvMod(r, Q)
  IN /\ e.s = BMod(BMul(BInvMod(e.k, Q), BAdd(e.m, BMul(r, e.d))), Q)
     /\ <<e.in.Tx, e.in.Ty>> = Times(ri, R)
     /\ Pt(e.in.Ux, e.in.Uy) = EcNeg(P, Times(BMod(BMul(ri, e.m), Q), g))
     /\ Key(e.in) = Times(e.d, g)
Step ==
  CASE e.op = "main" -> e.circuit /\ {e.public[k] : k \in 1..Len(e.public)} = {"root", "Tx", "Ty", "Ux", "Uy"} /\ e.order = <<"root", "Tx", "Ty", "Ux", "Uy">>
    [] e.op = "circuit" -> e.circuit         \* the text is a circuit
    [] OTHER -> /\ (Domain /\ e.own /\ Provable) => e.sat
                /\ (Domain /\ e.sat) => Right
                /\ "k" \in DOMAIN e => Signed
TNext == \/ /\ l <= Len(Ev) /\ Step /\ l' = l + 1 /\ UNCHANGED prog
         \/ l = Len(Ev) + 1 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_vars
TypeOK == Len(RoundKey) = NumKeys
=============================================================================
