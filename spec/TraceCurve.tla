----------------------------- MODULE TraceCurve -----------------------------
(* Binds Curve, MapToCurve and the generator derivation to recorded runs of the real point type. *)
EXTENDS Curve, MapToCurve, Keccak, TLC, Json, IOUtils
Progs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES prog, l, gens        \* gens: [G |-> points, H |-> point]
vars == <<pts, prog, l, gens>>

TInit == Init /\ l = 1 /\ prog \in 1..Len(Progs) /\ gens = [G |-> <<>>, H |-> <<>>]
Ev == Progs[prog].ev
e == Ev[l]
Has(k) == k \in DOMAIN e
EncOf(X) == IF X = Inf THEN "00" ELSE HexCat(IF FOdd(X[2]) THEN "03" ELSE "02", BToBE(X[1], 32))
Shows(X) == /\ Has("out") /\ e.out = X /\ e.enc = EncOf(X) /\ e.id = (X = Inf)
            /\ e.back /\ e.proj /\ e.ser
To(A) == A /\ Shows(pts'[e.d]) /\ UNCHANGED gens
Keep == UNCHANGED <<pts, gens>>

\* what a SEC1 byte string denotes: <<TRUE, point>> or <<FALSE>>
Meaning(h) ==
  LET n == HexLen(h)
      t == IF n > 0 THEN HexSub(h, 0, 1) ELSE ""
      x == IF n >= 33 THEN BFromBE(HexSub(h, 1, 33)) ELSE N(0)
      y == IF n = 65 THEN BFromBE(HexSub(h, 33, 65)) ELSE N(0)
  IN CASE t = "00" /\ n = 1 -> <<TRUE, Inf>>
       [] t \in {"02", "03"} /\ n = 33 -> IF Decodable(x) THEN <<TRUE, Lift(x, t = "03")>> ELSE <<FALSE>>
       [] t = "04" /\ n = 65 -> IF BLt(x, P) /\ BLt(y, P) /\ OnCurve(<<x, y>>) THEN <<TRUE, <<x, y>>>> ELSE <<FALSE>>
       [] OTHER -> <<FALSE>>
Decode == LET w == Now(Meaning(e.h)) IN
          /\ (IF Has("panic") THEN TRUE ELSE e.none) = ~w[1]       \* refused by None, Err or an abort
          /\ IF w[1] THEN Set(e.d, w[2]) /\ Shows(w[2]) ELSE UNCHANGED pts
          /\ UNCHANGED gens

Wide(h, a) == BMod(BFromLE(HexSub(h, a, a + 64)), P)
Uniform(h) == MapPair(Wide(h, 0), Wide(h, 64))
\* generators: n + 1 points from SHAKE256(label, compressed base point)
GensOf(n, label) ==
  LET s == Shake256(HexCat(label, EncOf(Gen)), 128 * (n + 1))
      pt == Now([i \in 1..(n + 1) |-> Uniform(HexSub(s, 128 * (i - 1), 128 * i))])
  IN [G |-> SubSeq(pt, 1, n), H |-> pt[n + 1]]
IsFam(f, gs, gh) == f.G = gs /\ f.H = gh /\ f.len = Len(gs)
Step ==
  LET op == e.op IN
  CASE op = "id"     -> To(Identity(e.d))
    [] op = "gen"    -> To(Generator(e.d))
    [] op = "dec"    -> Decode
    [] op = "add"    -> To(Add(e.d, e.a, e.b))
    [] op = "sub"    -> To(Sub(e.d, e.a, e.b))
    [] op = "neg"    -> To(Neg(e.d, e.a))
    [] op = "double" -> To(Double(e.d, e.a))
    [] op = "mul"    -> To(Mul(e.d, e.k, e.a))
    [] op = "sum"    -> To(Sum(e.d, e.rs))
    [] op = "msm"    -> To(Msm(e.d, e.ks, SubSeq(e.rs, 1, Len(e.ks))))
    [] op = "eq"     -> LET q == pts[e.a] = pts[e.b] IN e.res = q /\ e.ne = ~q /\ Keep
    [] op = "uniform" -> To(Set(e.d, Uniform(e.h)))
    [] op = "gens"   -> LET g == Now(GensOf(e.n, e.label)) IN
                        e.G = g.G /\ e.H = g.H /\ e.len = e.n /\ gens' = g /\ UNCHANGED pts
    [] op = "family" -> /\ Keep
                        /\ LET gs == gens.G gh == gens.H IN
                           CASE e.how = "scale" -> IsFam(e.fam[1], [i \in 1..Len(gs) |-> PMul(e.k, gs[i])], gh)
                             [] e.how = "split" -> /\ IsFam(e.fam[1], SubSeq(gs, 1, e.mid), gh)
                                                   /\ IsFam(e.fam[2], SubSeq(gs, e.mid + 1, Len(gs)), gh)
                             [] OTHER -> IsFam(e.fam[1], gs, gh)
    [] op = "commit" -> To(Set(e.d, PAdd(PMsm(e.vs, gens.G), PMul(e.blind, gens.H))))
    [] OTHER -> FALSE
\* a commitment to another number of values than there are generators is refused
Refuses == /\ Has("panic")
           /\ \/ e.op = "commit" /\ Len(e.vs) # Len(gens.G) /\ Keep
              \/ e.op = "dec" /\ Decode
TNext == \/ /\ l <= Len(Ev) /\ (Refuses \/ (~Has("panic") /\ Step)) /\ l' = l + 1 /\ UNCHANGED prog
         \/ l = Len(Ev) + 1 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_vars
TypeOK == \A r \in Reg : OnCurve(pts[r])
=============================================================================
