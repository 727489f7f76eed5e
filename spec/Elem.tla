-------------------------------- MODULE Elem --------------------------------
(***************************************************************************)
(* Elementary and special functions over the reals of BigNum, each to at   *)
(* least 25 significant decimal digits on the ranges that Dist uses.  They *)
(* are written from textbook definitions (power series, continued          *)
(* fractions, Stirling's series), not from the implementation under test.  *)
(***************************************************************************)
EXTENDS BigNum, SequencesExt

Poly(cs, x) == FoldLeft(LAMBDA acc, c : NAdd(NMul(acc, x), c), Zero, cs)
                                             \* cs: highest degree first
Up(n) == [i \in 1..n |-> i]
Down(n) == [i \in 1..n |-> n + 1 - i]

Fact(n) == FoldLeft(LAMBDA a, i : NMul(a, NInt(i)), One, Up(n))
-----------------------------------------------------------------------------
(* Binary exponent: a = y * 2^Exp2(a) with y in [1/2, 1).                  *)
Exp2(a) == 15 * (Top(a) - 1) + BitLen(a[3][Len(a[3])])
-----------------------------------------------------------------------------
(* Logarithm.                                                              *)
AtanhCoefs(n) == [i \in 1..n |-> NRat(1, 2 * (n - i) + 1)]
AtanhC14 == AtanhCoefs(14)
AtanhC44 == AtanhCoefs(44)
Atanh2(t, cs) == NMul(NMul(Two, t), Poly(cs, NMul(t, t)))     \* 2 atanh t

LnSmall(x, cs) == Atanh2(NDiv(NSub(x, One), NAdd(x, One)), cs)
Ln2 == NAdd(LnSmall(NRat(4, 3), AtanhC44), LnSmall(NRat(3, 2), AtanhC44))
\* ln(i / 128) for i in 64..127, through factors close to one
LnTab == [i \in 64..127 |->
            IF i < 91 THEN NSub(LnSmall(NRat(i, 80), AtanhC44),
                                LnSmall(NRat(8, 5), AtanhC44))
                      ELSE LnSmall(NRat(i, 128), AtanhC44)]
Ln(x) ==
  LET k == Exp2(x)
      y == NShift(x, -k)
      i == NFloor(NShift(y, 7))
      z == NDiv(y, NRat(i, 128))
  IN  NAdd(NMul(NInt(k), Ln2), NAdd(LnTab[i], LnSmall(z, AtanhC14)))

\* ln(1 + z), without cancellation for small |z|
Ln1p(z) ==
  IF z = Zero THEN Zero
  ELSE IF NLt(NAbs(z), NRat(1, 128)) THEN Atanh2(NDiv(z, NAdd(Two, z)), AtanhC14)
  ELSE Ln(NAdd(One, z))
-----------------------------------------------------------------------------
(* Exponential.                                                            *)
ExpC == [i \in 1..16 |-> NDiv(One, Fact(16 - i))]
ExpMax == NInt(100000)
Tiny == Pow2(-400000)

Exp(x) ==                                     \* saturates beyond |x| = 1e5
  IF x = Zero THEN One
  ELSE IF NLt(x, NNeg(ExpMax)) THEN Tiny
  ELSE IF NLt(ExpMax, x) THEN Pow2(400000)
  ELSE LET k == NFloor(NAdd(NDiv(x, Ln2), Half))
           r == NShift(NSub(x, NMul(NInt(k), Ln2)), -7)
           s == FoldLeft(LAMBDA a, i : NMul(a, a), Poly(ExpC, r), Up(7))
       IN  NShift(s, k)

Expm1C == [i \in 1..16 |-> NDiv(One, Fact(17 - i))]
Expm1(x) ==
  IF NLt(NAbs(x), NRat(1, 64))
  THEN NMul(x, Poly(Expm1C, x))
  ELSE NSub(Exp(x), One)

Pow(x, y) == IF x = Zero THEN Zero ELSE Exp(NMul(y, Ln(x)))      \* x >= 0
-----------------------------------------------------------------------------
(* Arctangent and pi.                                                      *)
AtanCoef(k) == NRat(1 - 2 * (k % 2), 2 * k + 1)
AtanC == [i \in 1..24 |-> AtanCoef(24 - i)]
AtanC80 == [i \in 1..80 |-> AtanCoef(80 - i)]
AtanSeries(x) == NMul(x, Poly(AtanC, NMul(x, x)))
AtanHalve(x) == NDiv(x, NAdd(One, NSqrt(NAdd(One, NMul(x, x)))))
AtanSlow(x) == NMul(x, Poly(AtanC80, NMul(x, x)))
\* Machin: pi = 16 atan(1/5) - 4 atan(1/239).  The three constants below are
\* written out because TLC would recompute them; MCElem checks them.
PiMachin == NMul(NInt(4), NSub(NMul(NInt(4), AtanSlow(NRat(1, 5))),
                               AtanSlow(NRat(1, 239))))
Pi == <<1, -8, <<28787, 23558, 26152, 6296, 12429, 4276, 23202, 4639, 3>>>>
HalfLn2Pi == <<1, -9, <<4583, 6432, 648, 29248, 9381, 23123, 25790, 25488, 30111>>>>
SqrtPi == <<1, -8, <<14648, 6843, 16712, 19997, 27303, 27102, 25158, 25311, 1>>>>
HalfPi == NMul(Half, Pi)

AtanPos(x) ==                                               \* 0 <= x <= 1
  NMul(NInt(8), AtanSeries(AtanHalve(AtanHalve(AtanHalve(x)))))
Atan(x) ==
  LET a == NAbs(x)
      v == IF NLe(a, One) THEN AtanPos(a) ELSE NSub(HalfPi, AtanPos(NDiv(One, a)))
  IN  IF x[1] < 0 THEN NNeg(v) ELSE v
-----------------------------------------------------------------------------
(* Gamma function: ln Gamma, digamma (Stirling after an upward shift).     *)
Bern == << <<1, 6>>, <<-1, 30>>, <<1, 42>>, <<-1, 30>>, <<5, 66>>,
           <<-691, 2730>>, <<7, 6>>, <<-3617, 510>>, <<43867, 798>>,
           <<-174611, 330>>, <<854513, 138>>, <<-236364091, 2730>>,
           <<8553103, 6>> >>
NBern == Len(Bern)
Bernoulli2(k) == NRat(Bern[k][1], Bern[k][2])          \* B_{2k}
LnGammaCoef(k) == NDiv(Bernoulli2(k), NInt(2 * k * (2 * k - 1)))
DigammaCoef(k) == NDiv(Bernoulli2(k), NInt(2 * k))
LnGammaC == [i \in 1..NBern |-> LnGammaCoef(NBern + 1 - i)]
DigammaC == [i \in 1..NBern |-> DigammaCoef(NBern + 1 - i)]
ShiftTo == NInt(40)

StirlingTail(z) == LET w == NDiv(One, z) IN NMul(w, Poly(LnGammaC, NMul(w, w)))
LnGammaBig(z) ==
  NAdd(NAdd(NMul(NSub(z, Half), Ln(z)), NNeg(z)), NAdd(HalfLn2Pi, StirlingTail(z)))

Shifts(x) == IF NLt(x, ShiftTo) THEN 40 - NFloor(x) ELSE 0

LnGamma(x) ==                                                     \* x > 0
  LET n == Shifts(x)
      p == FoldLeft(LAMBDA a, i : NMul(a, NAdd(x, NInt(i - 1))), One, Up(n))
  IN  IF n = 0 THEN LnGammaBig(x)
      ELSE NSub(LnGammaBig(NAdd(x, NInt(n))), Ln(p))

DigammaBig(z) ==
  LET w == NDiv(One, z)  w2 == NMul(w, w)
  IN  NSub(NSub(Ln(z), NMul(Half, w)), NMul(w2, Poly(DigammaC, w2)))
Digamma(x) ==
  LET n == Shifts(x)
      s == FoldLeft(LAMBDA a, i : NAdd(a, NDiv(One, NAdd(x, NInt(i - 1)))), Zero, Up(n))
  IN  NSub(DigammaBig(NAdd(x, NInt(n))), s)

LnBeta(a, b) == NSub(NAdd(LnGamma(a), LnGamma(b)), LnGamma(NAdd(a, b)))
-----------------------------------------------------------------------------
(* Regularized incomplete gamma: P(a, x) and Q = 1 - P.                    *)
Eps == Pow2(-96)

RECURSIVE IncGammaSum(_, _, _, _)
IncGammaSum(d, x, term, sum) ==
  LET t == NDiv(NMul(term, x), d)
      s == NAdd(sum, t)
  IN  IF NLt(t, NMul(s, Eps)) THEN s
      ELSE IncGammaSum(NAdd(d, One), x, t, s)

IncGammaPSeries(a, x) ==
  NMul(Exp(NSub(NSub(NMul(a, Ln(x)), x), LnGamma(NAdd(a, One)))),
       IncGammaSum(NAdd(a, One), x, One, One))

\* modified Lentz evaluation of 1/(x+1-a- 1(1-a)/(x+3-a- ...))
RECURSIVE IncGammaCF(_, _, _, _, _, _)
IncGammaCF(i, a, b, c, d, h) ==
  LET ni == NInt(i)
      an == NNeg(NMul(ni, NSub(ni, a)))
      b2 == NAdd(b, Two)
      d1 == NAdd(NMul(an, d), b2)
      d2 == NDiv(One, IF d1 = Zero THEN Tiny ELSE d1)
      c1 == NAdd(b2, NDiv(an, c))
      c2 == IF c1 = Zero THEN Tiny ELSE c1
      del == NMul(d2, c2)
      h2 == NMul(h, del)
  IN  IF NLt(NAbs(NSub(del, One)), Eps) \/ i >= 1000000 THEN h2
      ELSE IncGammaCF(i + 1, a, b2, c2, d2, h2)
IncGammaQFrac(a, x) ==
  LET b == NSub(NAdd(x, One), a)
      d == NDiv(One, b)
  IN  NMul(Exp(NSub(NSub(NMul(a, Ln(x)), x), LnGamma(a))),
           IncGammaCF(1, a, b, Pow2(6000), d, d))

UseSeries(a, x) == NLt(x, NAdd(NAdd(a, One), NInt(2)))
IncGammaP(a, x) ==
  IF x[1] <= 0 THEN Zero
  ELSE IF UseSeries(a, x) THEN IncGammaPSeries(a, x)
  ELSE NSub(One, IncGammaQFrac(a, x))
IncGammaQ(a, x) ==
  IF x[1] <= 0 THEN One
  ELSE IF UseSeries(a, x) THEN NSub(One, IncGammaPSeries(a, x))
  ELSE IncGammaQFrac(a, x)
-----------------------------------------------------------------------------
(* Normal distribution function, both tails to full relative accuracy.     *)
RECURSIVE ErfSum(_, _, _, _)
ErfSum(n, y, term, sum) ==            \* sum_n (2 x^2)^n / (2n+1)!!, y = 2 x^2
  LET t == NDiv(NMul(term, y), NInt(2 * n + 1))
      s == NAdd(sum, t)
  IN  IF NLt(t, NMul(s, Eps)) THEN s ELSE ErfSum(n + 1, y, t, s)
ErfPos(x) == LET x2 == NMul(x, x)     \* 0 <= x
             IN  NDiv(NMul(NMul(Two, x), NMul(Exp(NNeg(x2)), ErfSum(1, NMul(Two, x2), One, One))),
                      SqrtPi)
ErfcPos(x) == IF NLt(x, NInt(4)) THEN NSub(One, ErfPos(x))
              ELSE IncGammaQFrac(Half, NMul(x, x))
Sqrt2 == NSqrt(Two)
\* Phi(z) for the standard normal
PhiLower(z) == LET a == NDiv(NAbs(z), Sqrt2)
               IN IF z[1] <= 0 THEN NMul(Half, ErfcPos(a))
                  ELSE NSub(One, NMul(Half, ErfcPos(a)))
PhiUpper(z) == PhiLower(NNeg(z))
-----------------------------------------------------------------------------
(* Regularized incomplete beta: I_x(a, b), and 1 - I_x(a, b) computed as   *)
(* I_{1-x}(b, a); xc is 1 - x, passed separately to avoid cancellation.    *)
RECURSIVE IncBetaCF(_, _, _, _, _, _, _)
IncBetaCF(m, a, b, x, c, d, h) ==
  LET nm  == NInt(m)
      m2  == NInt(2 * m)
      am2 == NAdd(a, m2)
      aa1 == NDiv(NMul(NMul(nm, NSub(b, nm)), x), NMul(NSub(am2, One), am2))
      d1  == NDiv(One, NAdd(One, NMul(aa1, d)))
      c1  == NAdd(One, NDiv(aa1, c))
      h1  == NMul(h, NMul(d1, c1))
      aa2 == NNeg(NDiv(NMul(NMul(NAdd(a, nm), NAdd(NAdd(a, b), nm)), x),
                       NMul(am2, NAdd(am2, One))))
      d2  == NDiv(One, NAdd(One, NMul(aa2, d1)))
      c2  == NAdd(One, NDiv(aa2, c1))
      del == NMul(d2, c2)
      h2  == NMul(h1, del)
  IN  IF NLt(NAbs(NSub(del, One)), Eps) \/ m >= 1000000 THEN h2
      ELSE IncBetaCF(m + 1, a, b, x, c2, d2, h2)

IncBetaFront(a, b, x, xc, lb) ==      \* x^a (1-x)^b / (a B(a,b)) * CF
  LET qab == NAdd(a, b)
      d   == NDiv(One, NSub(One, NDiv(NMul(qab, x), NAdd(a, One))))
  IN  NDiv(NMul(Exp(NSub(NAdd(NMul(a, Ln(x)), NMul(b, Ln(xc))), lb)),
                IncBetaCF(1, a, b, x, One, d, d)), a)

IncBetaX(a, b, x, xc, lb) ==
  IF x[1] <= 0 THEN Zero ELSE IF xc[1] <= 0 THEN One
  ELSE IF NLt(x, NDiv(NAdd(a, One), NAdd(NAdd(a, b), Two)))
       THEN IncBetaFront(a, b, x, xc, lb)
       ELSE NSub(One, IncBetaFront(b, a, xc, x, lb))
IncBeta(a, b, x) == IncBetaX(a, b, x, NSub(One, x), LnBeta(a, b))
=============================================================================
