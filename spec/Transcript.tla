----------------------------- MODULE Transcript -----------------------------
(* The public-coin transcript: a log of items <<"a", label, bytes>> (absorbed) and <<"c", label, bytes>>
   (squeezed).  A challenge is the squeezed bytes, read as a little-endian number, reduced.  What the
   protocols require of the log is that each challenge comes after everything it has to bind: `need[k]`
   is what challenge k binds in addition to what the earlier ones bind.  Labels are not part of it. *)
EXTENDS Field, SequencesExt
Kinds(log, k) == SelectSeq(log, LAMBDA x : x[1] = k)
Wide(h) == BMod(BFromLE(h), P)
Chs(log) == Now(LET s == Kinds(log, "c") IN [i \in 1..Len(s) |-> Wide(s[i][3])])
ScalarBytes(x) == BToLE(x, 32)
Bytes(xs) == [i \in 1..Len(xs) |-> ScalarBytes(xs[i])]

RECURSIVE Without(_, _)
\* the sequence avail without one occurrence of each item of xs; <<>> marks a missing item
Without(avail, xs) ==
  IF xs = <<>> THEN [ok |-> TRUE, rest |-> avail]
  ELSE IF \E i \in 1..Len(avail) : avail[i] = Head(xs)
       THEN LET i == CHOOSE i \in 1..Len(avail) : avail[i] = Head(xs) IN Without(RemoveAt(avail, i), Tail(xs))
       ELSE [ok |-> FALSE, rest |-> avail]
Binds(log, need) ==
  LET Step(a, x) == IF ~a.ok THEN a
        ELSE IF x[1] = "a" THEN [a EXCEPT !.avail = Append(@, x[3])]
        ELSE IF a.k > Len(need) \/ HexLen(x[3]) # 64 THEN [a EXCEPT !.ok = FALSE]
        ELSE LET w == Without(a.avail, need[a.k]) IN [a EXCEPT !.ok = w.ok, !.avail = w.rest, !.k = @ + 1]
      e == FoldLeft(Step, [ok |-> TRUE, avail |-> <<>>, k |-> 1], log)
  IN e.ok /\ e.k = Len(need) + 1
(* Typed items of a transcript: [k: kind, l: label, v: value]; the bytes each contributes.  A polynomial is
   given by its values. *)
U64Bytes(n) == BToLE(BOf(n), 8)
ItemBytes(x, coeffs(_)) ==
  CASE x.k = "name" -> <<x.v>>
    [] x.k \in {"scalar", "item"} -> <<ScalarBytes(x.v)>>
    [] x.k = "vector" -> Bytes(x.v)
    [] x.k \in {"point", "pitem"} -> <<x.v>>
    [] x.k = "poly" -> Bytes(coeffs(x.v))
    [] x.k = "shares" -> x.v
    [] x.k = "u64" -> <<U64Bytes(x.v)>>
    [] OTHER -> <<>>
Squeezes(x) == CASE x.k = "ch" -> 1 [] x.k = "chs" -> x.v [] OTHER -> 0
\* what each challenge of a sequence of items has to bind; what comes after the last one binds nothing yet
NeedsOf(items, coeffs(_)) ==
  FoldLeft(LAMBDA a, x : LET n == Squeezes(x) IN
             IF n = 0 THEN [a EXCEPT !.open = @ \o ItemBytes(x, coeffs)]
             ELSE Now([need |-> a.need \o <<a.open>> \o [i \in 1..(n - 1) |-> <<>>], open |-> <<>>]),
           [need |-> <<>>, open |-> <<>>], items).need
\* both sides of a protocol see the same transcript
SameLog(a, b) == a = b
=============================================================================
