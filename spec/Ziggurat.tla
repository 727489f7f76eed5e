------------------------------ MODULE Ziggurat ------------------------------
(***************************************************************************)
(* Marsaglia and Tsang's ziggurat for the standard normal: 128 layers of   *)
(* equal area under f(x) = exp(-x^2/2), x > 0.  The bottom one consists of *)
(* a rectangle up to R and the exponential envelope f(R) exp(-R (x - R))   *)
(* of the tail beyond.  The tables are derived here from R alone:          *)
(*   Edge(126) = R, f(Edge(i-1)) = f(Edge(i)) + V / Edge(i), and the       *)
(*   bottom layer has the pseudo-width Edge(127) = V / f(R).               *)
(* A source word selects the layer (bits 0-6), the sign (bit 7) and the    *)
(* abscissa (bits 8-31, in units of Edge(i)/2^24).                         *)
(***************************************************************************)
EXTENDS Dist, ZigguratTables

F(x) == Exp(NNeg(NMul(Half, Sq(x))))
R == NDiv(NAdd(NMul(I(344428), NPow10(6)), I(647676)), NPow10(11))   \* 3.44428647676
V == NMul(F(R), NAdd(R, NDiv(One, R)))

\* edges from the widest inwards, <<Edge(127), Edge(126), ..., Edge(0)>>
RECURSIVE Inwards(_, _)
Inwards(s, n) ==
  IF n = 0 THEN s
  ELSE LET x == s[Len(s)]
           y == NAdd(F(x), NDiv(V, x))
       IN  Inwards(Append(s, NSqrt(NNeg(NMul(Two, Ln(y))))), n - 1)
EdgesIn == Inwards(<<NDiv(V, F(R)), R>>, 126)
\* the same as literals; layer i is at index i + 1
Edge(i) == EdgeTup[i + 1]
Width(i) == NShift(EdgeTup[i + 1], -24)
\* heights of the upper boundary of layer i, f(Edge(i - 1))
Height(i) == HeightTup[i + 1]
\* abscissae below this lie under the curve whatever the height
Inside(i) == KTup[i + 1]
\* what the literals have to be
EdgeLaw(i, e) == NSqrt(NNeg(NMul(Two, Ln(NAdd(F(e), NDiv(V, e))))))
HeightLaw(i) == IF i = 0 THEN One ELSE F(Edge(i - 1))
InsideLaw(i) == IF i = 0 THEN 0 ELSE NFloor(NShift(NDiv(Edge(i - 1), Edge(i)), 24))
-----------------------------------------------------------------------------
(* Reads are <<"u", limbs>> or <<"f", number>>.                             *)
Layer(L) == L[1] % 128
SignBit(L) == (L[1] \div 128) % 2
Abscissa(L) == (L[1] \div 256) + L[2] * 128 + (L[3] % 4) * 4194304

WordMax == NSub(Pow2(64), One)
WordNum(L) == Norm(1, 0, L)
\* the uniform a read stands for
IsRead(w, i) == i <= Len(w)
UOf(w, i) == IF w[i][1] = "f" THEN w[i][2] ELSE NDiv(WordNum(w[i][2]), WordMax)

TieBits == -34              \* comparisons closer than this may go either way
Fuzz == Pow2(TieBits)

\* Possible outcomes of one standard normal from reads w, starting at i:
\* [z, n, path] with n the next unread position.  Reads that run out give
\* no outcome.
RECURSIVE Normal(_, _, _)
Normal(w, i, path) ==
  IF ~IsRead(w, i) \/ w[i][1] # "u" THEN {}
  ELSE
  LET L == w[i][2]
      k == Layer(L)
      j == Abscissa(L)
      S(x) == IF SignBit(L) = 1 THEN x ELSE NNeg(x)
      x0 == NMul(I(j), Width(k))
      Done(x, n, p) == {[z |-> S(x), n |-> n, path |-> Append(path, p)]}
      Again(n, p) == Normal(w, n, Append(path, p))
      fast == IF j < Inside(k) + 2 THEN Done(x0, i + 1, IF k = 127 THEN "base" ELSE "fast") ELSE {}
      wedge == IF ~IsRead(w, i + 1) THEN {}
               ELSE LET y == NAdd(Height(k + 1), NMul(NSub(Height(k), Height(k + 1)), UOf(w, i + 1)))
                        fx == F(x0)
                        d == NSub(fx, y)
                    IN  (IF NLt(NNeg(Fuzz), d) THEN Done(x0, i + 2, "wedge+") ELSE {})
                        \cup (IF NLt(d, Fuzz) THEN Again(i + 2, "wedge-") ELSE {})
      tail == IF ~IsRead(w, i + 2) THEN {}
              ELSE LET u1 == UOf(w, i + 1)
                       u2 == UOf(w, i + 2)
                       c == NSub(One, u1)
                       x == NSub(R, NDiv(Ln(c), R))
                       \* accept iff exp(-R (x - R/2)) u2 < f(x)
                       g == Exp(NNeg(NMul(Half, Sq(NSub(x, R)))))
                       d == NSub(g, u2)
                   IN  IF c[1] <= 0 THEN Again(i + 3, "tail-")
                       ELSE (IF NLt(NNeg(Fuzz), d) THEN Done(x, i + 3, "tail+") ELSE {})
                            \cup (IF NLt(d, Fuzz) THEN Again(i + 3, "tail-") ELSE {})
      slow == IF j < Inside(k) - 2 THEN {} ELSE IF k = 127 THEN tail ELSE wedge
  IN  fast \cup slow
=============================================================================
