------------------------------- MODULE Wtns -------------------------------
(* The binary witness-file format.  A witness is [prime, vals]. *)
EXTENDS R1csFile

W32(x) == BToLE(x, 4)
W64(x) == BToLE(x, 8)
WCat(ss) == FoldLeft(LAMBDA a, b : HexCat(a, b), "", ss)
WrWtns(version, w) ==
  WCat(<<HexOf("wtns"), W32(BOf(version)), W32(BOf(2)),
         W32(BOf(1)), W64(BOf(40)), W32(BOf(32)), BToLE(w.prime, 32), W32(BOf(Len(w.vals))),
         W32(BOf(2)), W64(BOf(32 * Len(w.vals)))>> \o [i \in 1..Len(w.vals) |-> BToLE(w.vals[i], 32)])

WAt32(h, o) == BFromLE(HexSub(h, o, o + 4))
WAt64(h, o) == BFromLE(HexSub(h, o, o + 8))
\* 12 | 12 + 40 | 12 + 32 * length
ParseWtns(h) ==
  IF HexLen(h) < 76 THEN [ok |-> FALSE] ELSE
  LET len == WAt32(h, 60) n == BInt(len) IN
  IF \/ HexSub(h, 0, 4) # HexOf("wtns") \/ BLt(BOf(2), WAt32(h, 4)) \/ WAt32(h, 8) # BOf(2)
     \/ WAt32(h, 12) # BOf(1) \/ WAt64(h, 16) # BOf(40) \/ WAt32(h, 24) # BOf(32)
     \/ WAt32(h, 64) # BOf(2) \/ WAt64(h, 68) # BMul(len, BOf(32)) \/ n < 0 \/ n > (HexLen(h) - 76) \div 32
  THEN [ok |-> FALSE] ELSE
  LET v == [i \in 1..n |-> BFromLE(HexSub(h, 76 + 32 * (i - 1), 76 + 32 * i))] IN
  IF \E i \in 1..n : ~BLt(v[i], Q) THEN [ok |-> FALSE] ELSE [ok |-> TRUE, vals |-> v]
=============================================================================
