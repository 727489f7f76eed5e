----------------------------- MODULE MCZiggurat -----------------------------
(***************************************************************************)
(* The ziggurat of Ziggurat.tla: that its tables are one (layers of equal  *)
(* area under the curve, thresholds, and the whole area half of a normal), *)
(* and its runs as a state machine which picks its words: every layer,     *)
(* sign and side of every comparison.  Each run is accepted by Normal with *)
(* the same value, as the only possible one, and is exported as a script   *)
(* of words for the library.                                               *)
(***************************************************************************)
EXTENDS Ziggurat, TLC, Json, IOUtils
CONSTANTS Layers           \* a set of layers to start in
All == 0..127
Some == {0, 1, 2, 3, 50, 64, 100, 120, 125, 126, 127}

Near(x, y, b) == NLe(NAbs(NSub(x, y)), Pow2(b))
\* tables: each edge by the law from the wider one, heights, thresholds
ASSUME Len(EdgeTup) = 128 /\ Len(HeightTup) = 128 /\ Len(KTup) = 128
ASSUME Near(Edge(126), R, -100) /\ Near(Edge(127), NDiv(V, F(R)), -90)
ASSUME \A i \in 1..126 : Near(Edge(i - 1), EdgeLaw(i, Edge(i)), -90)
ASSUME \A i \in 0..127 : Near(Height(i), HeightLaw(i), -90)
ASSUME \A i \in 0..127 : Inside(i) = InsideLaw(i)
ASSUME \A i \in 1..126 : NLt(Edge(i - 1), Edge(i)) /\ NLt(Height(i + 1), Height(i))
\* equal areas: layers 1..126 are Edge(i) wide and Height(i) - Height(i + 1)
\* high, the innermost reaches up to 1, the base is R f(R) and its envelope
Area(i) == CASE i = 127 -> NMul(F(R), NAdd(R, NDiv(One, R)))
             [] OTHER -> NMul(Edge(i), NSub(Height(i), Height(i + 1)))
ASSUME \A i \in 1..127 : Near(Area(i), V, -90)
\* the top box is equal to rounding of the twelve given digits of R
ASSUME Near(Area(0), V, -34)
\* what is accepted adds up to the half curve: sqrt(pi / 2)
Under(x1, x2) == NMul(Sqrt2Pi, NSub(PhiLower(x2), PhiLower(x1)))
Accepted(i) ==
  CASE i = 127 -> NAdd(NMul(R, F(R)), NMul(Sqrt2Pi, PhiUpper(R)))
    [] i = 0 -> NSub(Under(Zero, Edge(0)), NMul(Edge(0), Height(1)))
    [] OTHER -> NAdd(NMul(Edge(i - 1), NSub(Height(i), Height(i + 1))),
                     NSub(Under(Edge(i - 1), Edge(i)), NMul(NSub(Edge(i), Edge(i - 1)), Height(i + 1))))
ASSUME Near(Sum([i \in 1..128 |-> Accepted(i - 1)]), NMul(Half, Sqrt2Pi), -80)
-----------------------------------------------------------------------------
VARIABLES st, w, lay, absc, sgn, val, path
vars == <<st, w, lay, absc, sgn, val, path>>
Full == 16777216
\* (closer to the threshold than rounding both ways are admitted)
Classes(k) == {x \in {0, 1, Inside(k) \div 2, Inside(k) - 3, Inside(k) + 3, (Inside(k) + Full) \div 2, Full - 1} :
                x >= 0 /\ x < Full /\ (x < Inside(k) - 2 \/ x > Inside(k) + 2)}
WordOf(k, j, s) == [s |-> <<"u", <<(k + 128 * s + 256 * (j % 128)), (j \div 128) % 32768, j \div 4194304, 0, 0>>>>]
Clip(u) == NMax(Zero, NMin(u, NSub(One, Pow2(-53))))
Around(t) == {Clip(NSub(t, Pow2(-24))), Clip(NAdd(t, Pow2(-24)))}
Extremes == {Zero, NSub(One, Pow2(-53))}
Init == st = "start" /\ w = <<>> /\ lay = 0 /\ absc = 0 /\ sgn = 0 /\ val = Zero /\ path = <<>>
Signed(x) == IF sgn' = 1 THEN x ELSE NNeg(x)
Pick(k, j, s) ==
  /\ st = "start" /\ lay' = k /\ absc' = j /\ sgn' = s
  /\ w' = Append(w, WordOf(k, j, s).s)
  /\ LET x == NMul(I(j), Width(k)) IN
     IF j < Inside(k) THEN st' = "done" /\ val' = (IF s = 1 THEN x ELSE NNeg(x)) /\ path' = Append(path, IF k = 127 THEN "base" ELSE "fast")
     ELSE st' = (IF k = 127 THEN "tail1" ELSE "wedge") /\ UNCHANGED <<val, path>>
Read(u) == w' = Append(w, <<"f", u>>)
Accept(ok, x, name) ==
  IF ok THEN st' = "done" /\ val' = (IF sgn = 1 THEN x ELSE NNeg(x)) /\ path' = Append(path, name \o "+")
  ELSE st' = "start" /\ val' = Zero /\ path' = Append(path, name \o "-")
WedgeThr == LET x == NMul(I(absc), Width(lay))
            IN  NDiv(NSub(F(x), Height(lay + 1)), NSub(Height(lay), Height(lay + 1)))
WedgeStep == /\ st = "wedge"
             /\ \E u \in Around(WedgeThr) \cup Extremes :
                  /\ ~Near(u, WedgeThr, -25) /\ Read(u)
                  /\ Accept(NLt(u, WedgeThr), NMul(I(absc), Width(lay)), "wedge")
             /\ UNCHANGED <<lay, absc, sgn>>
TailU == {Zero, NRat(1, 4), NRat(7, 8), NSub(One, Pow2(-20))}
Tail1 == st = "tail1" /\ st' = "tail2" /\ (\E u \in TailU : Read(u)) /\ UNCHANGED <<lay, absc, sgn, val, path>>
TailX == NSub(R, NDiv(Ln(NSub(One, w[Len(w)][2])), R))
TailThr == Exp(NNeg(NMul(Half, Sq(NSub(TailX, R)))))
Tail2 == /\ st = "tail2"
         /\ \E u \in Around(TailThr) \cup Extremes : ~Near(u, TailThr, -25) /\ Read(u) /\ Accept(NLt(u, TailThr), TailX, "tail")
         /\ UNCHANGED <<lay, absc, sgn>>
Next == \/ path = <<>> /\ \E k \in Layers, s \in {0, 1} : \E j \in Classes(k) : Pick(k, j, s)
        \/ path # <<>> /\ Pick(60, 9000000, 1)
        \/ WedgeStep \/ Tail1 \/ Tail2
View == w
\* the specification accepts the run, with this outcome only
Refines == st = "done" =>
  LET S == {x \in Normal(w, 1, <<>>) : x.n = Len(w) + 1}
  IN  /\ Cardinality(S) = 1
      /\ \A x \in S : Near(x.z, val, -60) /\ x.path = path
\* nothing is decided before the words are read
Prefix == st \in {"wedge", "tail1", "tail2"} => \A x \in Normal(w, 1, <<>>) : x.n <= Len(w)
ASSUME TLCSet(1, <<>>)
Word64(x) == IF x[1] = "u" THEN WordNum(x[2]) ELSE Floor(NMul(x[2], WordMax))
Note == st = "done" => TLCSet(1, Append(TLCGet(1), [w |-> [i \in 1..Len(w) |-> Word64(w[i])], path |-> path]))
Post == ndJsonSerialize(IOEnv.EXPORT, FlattenSeq(TLCGet("all")[1]))
=============================================================================
