--------------------------- MODULE TracePoseidon ---------------------------
(* Recorded hashes of the real code, and its published constants where a recording shows them. *)
EXTENDS Poseidon, TLC, Json, IOUtils
Progs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES prog, l
vars == <<prog, l>>
Ev == Progs[prog].ev
e == Ev[l]
Has(k) == k \in DOMAIN e
TInit == l = 1 /\ prog \in 1..Len(Progs)
IsIn(h) == HexLen(h) = 64 /\ BLt(BFromLE(HexSub(h, 0, 32)), P) /\ BLt(BFromLE(HexSub(h, 32, 64)), P)
Step == CASE e.op = "hash" -> ~Has("panic") /\ e.out = Hash2(F(e.a), F(e.b)) /\ e.canon
          \* the byte interface: 64 little-endian bytes, refused unless they are two elements
          [] e.op = "bytes" -> IF IsIn(e.h)
                               THEN ~Has("panic") /\ e.out = BToLE(Hash2(BFromLE(HexSub(e.h, 0, 32)), BFromLE(HexSub(e.h, 32, 64))), 32)
                               ELSE ~Has("out")
          [] e.op = "const" -> e.keys = RoundKey /\ e.mds = Mds /\ e.full = FullRounds /\ e.partial = PartialRounds
          \* keys, matrix and numbers of rounds of the caller's choice; every hash starts afresh
          [] e.op = "generic" ->
               ~Has("panic") /\ Len(e.outs) * 2 = Len(e.ins)
               /\ LET M == [i \in 1..3 |-> [j \in 1..3 |-> F(e.mds[3 * (i - 1) + j])]]
                      K == [i \in 1..Len(e.keys) |-> F(e.keys[i])]
                      full(r) == r <= e.full \div 2 \/ r > e.full \div 2 + e.partial
                      rnd(acc, r) == Now(Mix(M, LET a == AddKeys(K, acc, r) IN [i \in 1..3 |-> IF i = 1 \/ full(r) THEN Sbox(a[i]) ELSE a[i]]))
                  IN \A k \in 1..Len(e.outs) :
                       e.outs[k] = FoldLeft(rnd, <<F(3), F(e.ins[2 * k - 1]), F(e.ins[2 * k])>>, [r \in 1..(e.full + e.partial) |-> r])[2]
          [] OTHER -> FALSE
TNext == \/ /\ l <= Len(Ev) /\ Step /\ l' = l + 1 /\ UNCHANGED prog
         \/ l = Len(Ev) + 1 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_vars
TypeOK == Len(RoundKey) = NumKeys
=============================================================================
