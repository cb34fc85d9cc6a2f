----------------------------- MODULE R1csFile -----------------------------
(* The binary constraint-file format: what a file with given contents looks like (Write), and what a
   string of bytes denotes (Parse), if anything.

   A circuit is [prime, wires, pubOut, pubIn, prvIn, labels, cons, map]: all numbers are big numbers;
   cons is a sequence of constraints <<A, B, C>>, each a sequence of terms <<wire, coefficient>>; map is
   the sequence of the labels of the wires.  Q is the modulus of the coefficients. *)
EXTENDS Big, SequencesExt
CONSTANT Q

U32(x) == BToLE(x, 4)
U64(x) == BToLE(x, 8)
Cat(ss) == FoldLeft(LAMBDA a, b : HexCat(a, b), "", ss)
MapSeq(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]

\* ---------------------------------------------------------------- writing
WrTerm(t) == HexCat(U32(t[1]), BToLE(t[2], 32))
WrLc(v) == HexCat(U32(BOf(Len(v))), Cat(MapSeq(v, WrTerm)))
WrCon(k) == Cat(MapSeq(k, WrLc))
Section(type, body) == Cat(<<U32(BOf(type)), U64(BOf(HexLen(body))), body>>)
HeaderSec(c) == Section(1, Cat(<<U32(BOf(32)), BToLE(c.prime, 32), U32(c.wires), U32(c.pubOut), U32(c.pubIn), U32(c.prvIn), U64(c.labels), U32(BOf(Len(c.cons)))>>))
ConsSec(c) == Section(2, Cat(MapSeq(c.cons, WrCon)))
MapSec(c) == Section(3, Cat(MapSeq(c.map, U64)))
ExtraSec(x) == Section(x[1], x[2])
\* order: a sequence of section types; extras: type -> body for the types above 3
SecOf(c, x) == CASE x[1] = 1 -> HeaderSec(c) [] x[1] = 2 -> ConsSec(c) [] x[1] = 3 -> MapSec(c) [] OTHER -> ExtraSec(x)
Write(c, order) == Cat(<<HexOf("r1cs"), U32(BOf(1)), U32(BOf(Len(order)))>> \o MapSeq(order, LAMBDA x : SecOf(c, x)))

\* ---------------------------------------------------------------- reading
Refused == [ok |-> FALSE]
At32(h, o) == BFromLE(HexSub(h, o, o + 4))
At64(h, o) == BFromLE(HexSub(h, o, o + 8))
Bad == <<-1, <<>>>>                            \* of a reader: nothing read
NoSection == <<"0", 0, -1>>

\* section table: a sequence of <<type, first byte, size>>, or <<NoSection>> when a section is not all there
RECURSIVE Sections(_, _, _, _)
Sections(h, o, k, acc) ==
  IF k = 0 THEN acc
  ELSE IF o + 12 > HexLen(h) THEN <<NoSection>>
  ELSE LET size == BInt(At64(h, o + 4)) IN
       IF size < 0 \/ size > HexLen(h) - o - 12 THEN <<NoSection>>
       ELSE Sections(h, o + 12 + size, k - 1, Append(acc, <<At32(h, o), o + 12, size>>))

\* readers of the constraint section: <<offset behind, value>>, within the bytes before `end`
RdTerms(h, o, end, k) ==
  IF k > (end - o) \div 36 THEN Bad
  ELSE LET t == [i \in 1..k |-> <<At32(h, o + 36 * (i - 1)), BFromLE(HexSub(h, o + 36 * (i - 1) + 4, o + 36 * i))>>] IN
       IF \A i \in 1..k : BLt(t[i][2], Q) THEN <<o + 36 * k, t>> ELSE Bad
RdLc(h, o, end) ==
  IF o + 4 > end THEN Bad
  ELSE LET k == BInt(At32(h, o)) IN IF k < 0 THEN Bad ELSE RdTerms(h, o + 4, end, k)
RdCon(h, o, end) ==
  LET a == Now(RdLc(h, o, end)) IN IF a[1] < 0 THEN Bad ELSE
  LET b == Now(RdLc(h, a[1], end)) IN IF b[1] < 0 THEN Bad ELSE
  LET c == Now(RdLc(h, b[1], end)) IN IF c[1] < 0 THEN Bad ELSE <<c[1], <<a[2], b[2], c[2]>>>>
RECURSIVE RdCons(_, _, _, _)                   \* halves, for the depth of the recursion
RdCons(h, o, end, k) ==
  IF k = 0 THEN <<o, <<>>>>
  ELSE IF k = 1 THEN LET c == Now(RdCon(h, o, end)) IN IF c[1] < 0 THEN Bad ELSE <<c[1], <<c[2]>>>>
  ELSE LET m == k \div 2
           a == Now(RdCons(h, o, end, m)) IN IF a[1] < 0 THEN Bad ELSE
       LET b == Now(RdCons(h, a[1], end, k - m)) IN IF b[1] < 0 THEN Bad ELSE <<b[1], a[2] \o b[2]>>

Parse(h) ==
  IF HexLen(h) < 12 THEN Refused ELSE
  IF HexSub(h, 0, 4) # HexOf("r1cs") \/ At32(h, 4) # BOf(1) THEN Refused ELSE
  LET n == BInt(At32(h, 8))
      secs == IF n < 0 \/ n > HexLen(h) \div 12 THEN <<NoSection>> ELSE Now(Sections(h, 12, n, <<>>))
  IN IF secs = <<NoSection>> THEN Refused ELSE
     LET Has(t) == \E i \in 1..Len(secs) : secs[i][1] = BOf(t)
         Sec(t) == secs[CHOOSE i \in 1..Len(secs) : secs[i][1] = BOf(t)]
     IN IF ~(Has(1) /\ Has(2) /\ Has(3)) THEN Refused ELSE
        LET o == Sec(1)[2] IN
        IF Sec(1)[3] # 64 \/ At32(h, o) # BOf(32) THEN Refused ELSE
        LET wires == At32(h, o + 36)
            ncons == BInt(At32(h, o + 60))
            cs == Sec(2) ms == Sec(3)
            cons == IF ncons < 0 \/ ncons > cs[3] \div 12 THEN Bad ELSE Now(RdCons(h, cs[2], cs[2] + cs[3], ncons))
        IN IF cons[1] # cs[2] + cs[3] \/ BOf(ms[3]) # BMul(wires, BOf(8)) \/ ms[3] = 0 THEN Refused
           ELSE IF At64(h, ms[2]) # BOf(0) THEN Refused
           ELSE [ok |-> TRUE,
                 circuit |-> [prime |-> BFromLE(HexSub(h, o + 4, o + 36)), wires |-> wires, pubOut |-> At32(h, o + 40),
                              pubIn |-> At32(h, o + 44), prvIn |-> At32(h, o + 48), labels |-> At64(h, o + 52), cons |-> cons[2],
                              map |-> [i \in 1..(ms[3] \div 8) |-> At64(h, ms[2] + 8 * (i - 1))]]]
\* two sections of the same type: the format does not say which one counts
Ambiguous(h) ==
  /\ HexLen(h) >= 12
  /\ LET n == BInt(At32(h, 8))
         secs == IF n < 0 \/ n > HexLen(h) \div 12 THEN <<NoSection>> ELSE Sections(h, 12, n, <<>>)
     IN secs # <<NoSection>> /\ \E i, j \in 1..Len(secs) : i # j /\ secs[i][1] = secs[j][1]
=============================================================================
