--------------------------- MODULE MC_Transcript ---------------------------
(* Transcripts whose challenges are an injective function of everything absorbed before: a prover of the
   specified kind binds every message to all later challenges, one that leaves a message out does not, and
   what a later challenge binds determines all messages before it. *)
EXTENDS Transcript, TLC
CONSTANTS Rounds, MaxMsgs
VARIABLES msgs, other, skip
vars == <<msgs, other, skip>>
Alphabet == {"aa", "bb"}
Msgs == UNION {[1..n -> Alphabet] : n \in 0..MaxMsgs}
Histories == UNION {[1..n -> Msgs] : n \in 1..Rounds}
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i])
Init == msgs \in Histories /\ other = <<>> /\ skip = <<0, 0>>
Places == UNION {{<<i, j>> : j \in 1..Len(msgs[i])} : i \in 1..Len(msgs)}
Next == /\ other = <<>>
        /\ \/ other' \in {h \in Histories : Same(h, msgs)} /\ skip' = <<0, 0>>
           \/ \E p \in Places : skip' = p /\ other' = msgs
        /\ UNCHANGED msgs
Spec == Init /\ [][Next]_vars
Sq == HexCat(HexCat(HexCat("0000000000000000", "0000000000000000"), HexCat("0000000000000000", "0000000000000000")),
             HexCat(HexCat("0000000000000000", "0000000000000000"), HexCat("0000000000000000", "0000000000000000")))
LogOf(h, omit) == FlattenSeq([i \in 1..Len(h) |-> FlattenSeq([j \in 1..Len(h[i]) |-> IF omit = <<i, j>> THEN <<>> ELSE <<<<"a", "l", h[i][j]>>>>]) \o <<<<"c", "l", Sq>>>>])
\* what the k-th challenge is a function of
Before(log, k) == LET at == CHOOSE i \in 1..Len(log) : log[i][1] = "c" /\ Len(Kinds(SubSeq(log, 1, i), "c")) = k IN SubSeq(log, 1, at - 1)
Honest == skip = <<0, 0>> => Binds(LogOf(msgs, <<0, 0>>), msgs)
Lossy == skip # <<0, 0>> => ~Binds(LogOf(msgs, skip), msgs)
\* changing any message changes every later challenge and no earlier one
Depends == other # <<>> /\ skip = <<0, 0>> => LET a == LogOf(msgs, <<0, 0>>) b == LogOf(other, <<0, 0>>) IN
             \A k \in 1..Len(msgs) : Before(a, k) = Before(b, k) <=> SubSeq(msgs, 1, k) = SubSeq(other, 1, k)
\* too few or too many challenges, or short ones, are no transcript of the protocol
Shape == LET a == LogOf(msgs, <<0, 0>>) IN /\ ~Binds(a, Append(msgs, <<>>)) /\ ~Binds(a, SubSeq(msgs, 1, Len(msgs) - 1))
                                    /\ ~Binds([i \in 1..Len(a) |-> IF a[i][1] = "c" THEN <<"c", "l", "00">> ELSE a[i]], msgs)
=============================================================================
