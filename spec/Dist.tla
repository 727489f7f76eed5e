-------------------------------- MODULE Dist --------------------------------
(***************************************************************************)
(* The fourteen families, defined by their mathematics: for an object o    *)
(*   Lower(o, x) = P(X <= x)     Upper(o, x) = P(X > x)                    *)
(*   Density(o, x)   Mass(o, k)  moments, entropy, and the set of outcomes.*)
(* Nothing here is transcribed from the implementation.                    *)
(*                                                                         *)
(* An object is [fam |-> name, a |-> numbers] where a holds                *)
(*   bernoulli <<p, q>>       binomial <<n, p, q>>   categorical <<p...>>  *)
(*   beta <<alpha, beta, a, b>>   cauchy <<x0, gamma>>  exponential <<l>>  *)
(*   gamma <<k, theta>>   gaussian, lognormal <<mu, sigma>>                *)
(*   laplace <<mu, b>>    logistic <<mu, s>>    pert <<a, b, c>>           *)
(*   triangular <<a, b, c>> (mode c)            uniform <<a, b>>           *)
(* with p + q = 1 exactly.  Answers may be infinite or not a number.       *)
(***************************************************************************)
EXTENDS Elem, FiniteSets

PosInf == <<2, 0, <<>>>>
NegInf == <<-2, 0, <<>>>>
NaN    == <<9, 0, <<>>>>
IsNum(v) == v[1] \in {-1, 0, 1}

\* order on extended reals (not NaN)
XLe(x, y) == IF x = NegInf \/ y = PosInf THEN TRUE
             ELSE IF x = PosInf \/ y = NegInf THEN x = y
             ELSE NLe(x, y)
XLt(x, y) == XLe(x, y) /\ x # y

Sq(x) == NMul(x, x)
Sum(s) == FoldLeft(LAMBDA acc, t : NAdd(acc, t), Zero, s)
NMaxS(s) == FoldLeft(LAMBDA acc, t : NMax(acc, t), Zero, s)
I(n) == NInt(n)

\* floor of any number, as a number
Floor(x) ==
  IF x[1] = 0 \/ x[2] >= 0 THEN x
  ELSE LET k == -x[2]
           n == Len(x[3])
           whole == IF k >= n THEN Zero
                    ELSE LET t == SubSeq(x[3], k + 1, n)
                             z == LowZeros(t, 0)
                         IN  <<x[1], z, SubSeq(t, z + 1, Len(t))>>
       IN  IF x[1] > 0 THEN whole ELSE NSub(whole, One)
IsInteger(x) == x[1] = 0 \/ x[2] >= 0
IsEven(x) == x[1] = 0 \/ x[2] > 0 \/ (x[2] = 0 /\ x[3][1] % 2 = 0)

Discrete == {"bernoulli", "binomial", "categorical"}
Continuous == {"beta", "cauchy", "exponential", "gamma", "gaussian", "laplace",
               "logistic", "lognormal", "pert", "triangular", "uniform"}
HasInverse == (Continuous \ {"gamma"}) \cup Discrete
-----------------------------------------------------------------------------
\* Beta shape of a PERT: <<alpha, beta, a, c>>
PertBeta(a) ==
  LET w == NSub(a[3], a[1])
  IN  <<NAdd(One, NDiv(NMul(I(4), NSub(a[2], a[1])), w)),
        NAdd(One, NDiv(NMul(I(4), NSub(a[3], a[2])), w)), a[1], a[3]>>
AsBeta(o) == IF o.fam = "pert" THEN PertBeta(o.a) ELSE o.a

\* closure of the support of a continuous family, the outcomes' hull otherwise
SupLo(o) ==
  CASE o.fam \in {"bernoulli", "binomial", "categorical", "exponential", "gamma",
                  "lognormal"} -> Zero
    [] o.fam \in {"pert", "triangular", "uniform"} -> o.a[1]
    [] o.fam = "beta" -> o.a[3]
    [] OTHER -> NegInf
SupHi(o) ==
  CASE o.fam = "bernoulli" -> One
    [] o.fam = "binomial" -> o.a[1]
    [] o.fam = "categorical" -> I(Len(o.a) - 1)
    [] o.fam = "pert" -> o.a[3]
    [] o.fam \in {"triangular", "uniform"} -> o.a[2]
    [] o.fam = "beta" -> o.a[4]
    [] OTHER -> PosInf
-----------------------------------------------------------------------------
(* Probability masses.                                                     *)
\* ln of the binomial mass at 0 <= k <= n
LnChoose(n, k) == NSub(NSub(LnGamma(NAdd(n, One)), LnGamma(NAdd(k, One))),
                       LnGamma(NAdd(NSub(n, k), One)))
XLnY(x, y) == IF x = Zero THEN Zero ELSE NMul(x, Ln(y))
\* ln p and ln q of a binomial or Bernoulli, from whichever is small
LnProb(p, q) == IF NLt(p, Half) THEN Ln(p) ELSE Ln1p(NNeg(q))
LnBinomialMass(a, k) ==
  LET r == NSub(a[1], k)
  IN  Sum(<<LnChoose(a[1], k),
            IF k = Zero THEN Zero ELSE NMul(k, LnProb(a[2], a[3])),
            IF r = Zero THEN Zero ELSE NMul(r, LnProb(a[3], a[2]))>>)

Mass(o, k) ==                                      \* k any integer number
  IF ~IsInteger(k) \/ k[1] < 0 \/ NLt(SupHi(o), k) THEN Zero
  ELSE CASE o.fam = "bernoulli" -> IF k = Zero THEN o.a[2] ELSE o.a[1]
         [] o.fam = "categorical" -> o.a[NFloor(k) + 1]
         [] o.fam = "binomial" -> Exp(LnBinomialMass(o.a, k))
-----------------------------------------------------------------------------
(* Distribution functions.                                                 *)
\* both tails of the beta on (0, 1); yc = 1 - y
BetaTails(al, be, y, yc) ==
  LET lb == LnBeta(al, be)
  IN  IF NLt(y, NDiv(NAdd(al, One), NAdd(NAdd(al, be), Two)))
      THEN LET v == IncBetaFront(al, be, y, yc, lb) IN <<v, NSub(One, v)>>
      ELSE LET v == IncBetaFront(be, al, yc, y, lb) IN <<NSub(One, v), v>>
GammaTails(k, x) ==
  IF UseSeries(k, x) THEN LET v == IncGammaPSeries(k, x) IN <<v, NSub(One, v)>>
  ELSE LET v == IncGammaQFrac(k, x) IN <<NSub(One, v), v>>
NormalTails(z) ==
  LET v == NMul(Half, ErfcPos(NDiv(NAbs(z), Sqrt2)))
  IN  IF z[1] <= 0 THEN <<v, NSub(One, v)>> ELSE <<NSub(One, v), v>>
\* 1/2 + atan(z)/pi, tails from atan(1/z)
CauchyTails(z) ==
  LET v == IF z = Zero THEN Half
           ELSE IF NLe(NAbs(z), One) THEN NSub(Half, NDiv(Atan(NAbs(z)), Pi))
           ELSE NDiv(Atan(NDiv(One, NAbs(z))), Pi)
  IN  IF z[1] <= 0 THEN <<v, NSub(One, v)>> ELSE <<NSub(One, v), v>>
LogisticTails(z) ==
  LET e == Exp(NNeg(NAbs(z)))
      v == NDiv(e, NAdd(One, e))
  IN  IF z[1] <= 0 THEN <<v, NSub(One, v)>> ELSE <<NSub(One, v), v>>
LaplaceTails(z) ==
  LET v == NMul(Half, Exp(NNeg(NAbs(z))))
  IN  IF z[1] <= 0 THEN <<v, NSub(One, v)>> ELSE <<NSub(One, v), v>>
TriangularTails(a, x) ==
  LET w == NSub(a[2], a[1])
  IN  IF NLe(x, a[3])
      THEN LET v == NDiv(NDiv(Sq(NSub(x, a[1])), w), NSub(a[3], a[1])) IN <<v, NSub(One, v)>>
      ELSE LET v == NDiv(NDiv(Sq(NSub(a[2], x)), w), NSub(a[2], a[3])) IN <<NSub(One, v), v>>

\* P(X <= k) of a binomial with 0 <= k < n: I_q(n - k, k + 1)
BinomialTails(a, k) ==
  LET al == NSub(a[1], k)
      be == NAdd(k, One)
  IN  BetaTails(al, be, a[3], a[2])
CategoricalTails(p, k) ==                           \* 0 <= k < Len(p) - 1
  <<Sum(SubSeq(p, 1, k + 1)), Sum(SubSeq(p, k + 2, Len(p)))>>

\* <<P(X <= x), P(X > x)>>, x extended
Tails(o, x) ==
  LET lo == SupLo(o)
      hi == SupHi(o)
      d  == o.fam \in Discrete
      a  == o.a
      z  == NDiv(NSub(x, a[1]), a[2])                \* location-scale families
      y  == IF d THEN Floor(x) ELSE x
  IN  IF x = PosInf THEN <<One, Zero>>
      ELSE IF x = NegInf THEN <<Zero, One>>
      ELSE IF lo # NegInf /\ (IF d THEN NLt(x, lo) ELSE NLe(x, lo)) THEN <<Zero, One>>
      ELSE IF hi # PosInf /\ NLe(hi, x) THEN <<One, Zero>>
      ELSE CASE o.fam = "bernoulli" -> <<a[2], a[1]>>
             [] o.fam = "binomial" -> BinomialTails(a, y)
             [] o.fam = "categorical" -> CategoricalTails(a, NFloor(y))
             [] o.fam \in {"beta", "pert"} ->
                  LET b == AsBeta(o)
                      w == NSub(b[4], b[3])
                  IN  BetaTails(b[1], b[2], NDiv(NSub(x, b[3]), w), NDiv(NSub(b[4], x), w))
             [] o.fam = "cauchy" -> CauchyTails(z)
             [] o.fam = "exponential" ->
                  LET t == NNeg(NMul(a[1], x)) IN <<NNeg(Expm1(t)), Exp(t)>>
             [] o.fam = "gamma" -> GammaTails(a[1], NDiv(x, a[2]))
             [] o.fam = "gaussian" -> NormalTails(z)
             [] o.fam = "laplace" -> LaplaceTails(z)
             [] o.fam = "logistic" -> LogisticTails(z)
             [] o.fam = "lognormal" -> NormalTails(NDiv(NSub(Ln(x), a[1]), a[2]))
             [] o.fam = "triangular" -> TriangularTails(a, x)
             [] o.fam = "uniform" ->
                  LET w == NSub(a[2], a[1])
                  IN  <<NDiv(NSub(x, a[1]), w), NDiv(NSub(a[2], x), w)>>
Lower(o, x) == Tails(o, x)[1]
Upper(o, x) == Tails(o, x)[2]
-----------------------------------------------------------------------------
(* Densities (one-sided limits at the ends of the support).                *)
\* y^(s-1) with its limit at y = 0
PowerEnd(y, s) == IF y = Zero
                  THEN IF s = One THEN One ELSE IF NLt(s, One) THEN PosInf ELSE Zero
                  ELSE Exp(NMul(NSub(s, One), Ln(y)))
BetaDensity(b, x) ==
  LET w == NSub(b[4], b[3])
      y == NDiv(NSub(x, b[3]), w)
      yc == NDiv(NSub(b[4], x), w)
      l == PowerEnd(y, b[1])
      r == PowerEnd(yc, b[2])
  IN  IF l = PosInf \/ r = PosInf THEN PosInf
      ELSE NDiv(NMul(NMul(l, r), Exp(NNeg(LnBeta(b[1], b[2])))), w)
GammaDensity(k, th, x) ==
  IF x = Zero THEN LET l == PowerEnd(Zero, k) IN IF l = One THEN NDiv(One, th) ELSE l
  ELSE LET t == NDiv(x, th)
       IN NDiv(Exp(NSub(NSub(NMul(NSub(k, One), Ln(t)), t), LnGamma(k))), th)
Sqrt2Pi == NMul(Sqrt2, SqrtPi)
NormalDensity(z) == NDiv(Exp(NNeg(NMul(Half, Sq(z)))), Sqrt2Pi)

Density(o, x) ==                                     \* x a number
  LET a == o.a
      lo == SupLo(o)
      hi == SupHi(o)
      z == NDiv(NSub(x, a[1]), a[2])
  IN  IF (lo # NegInf /\ NLt(x, lo)) \/ (hi # PosInf /\ NLt(hi, x)) THEN Zero
      ELSE CASE o.fam \in {"beta", "pert"} -> BetaDensity(AsBeta(o), x)
             [] o.fam = "cauchy" -> NDiv(One, NMul(NMul(Pi, a[2]), NAdd(One, Sq(z))))
             [] o.fam = "exponential" -> NMul(a[1], Exp(NNeg(NMul(a[1], x))))
             [] o.fam = "gamma" -> GammaDensity(a[1], a[2], x)
             [] o.fam = "gaussian" -> NDiv(NormalDensity(z), a[2])
             [] o.fam = "laplace" -> NDiv(NMul(Half, Exp(NNeg(NAbs(z)))), a[2])
             [] o.fam = "logistic" ->
                  LET e == Exp(NNeg(NAbs(z))) IN NDiv(NDiv(e, Sq(NAdd(One, e))), a[2])
             [] o.fam = "lognormal" ->
                  IF x = Zero THEN Zero
                  ELSE NDiv(NormalDensity(NDiv(NSub(Ln(x), a[1]), a[2])), NMul(x, a[2]))
             [] o.fam = "triangular" ->
                  LET w == NSub(a[2], a[1])
                      top == NDiv(Two, w)
                  IN  IF NLt(x, a[3]) THEN NMul(top, NDiv(NSub(x, a[1]), NSub(a[3], a[1])))
                      ELSE IF NLt(a[3], x) THEN NMul(top, NDiv(NSub(a[2], x), NSub(a[2], a[3])))
                      ELSE top
             [] o.fam = "uniform" -> NDiv(One, NSub(a[2], a[1]))
-----------------------------------------------------------------------------
(* Moments.  Each is a pair <<value, magnitude>>: the magnitude is the sum *)
(* of the absolute values of the terms of which the value is a sum, which  *)
(* bounds the rounding error of any evaluation in units of 2^-53.          *)
Abs(x) == NAbs(x)
Exact(v) == <<v, NAbs(v)>>
CatIdx(o) == [i \in 1..Len(o.a) |-> I(i - 1)]
CatMean(o) == Sum([i \in 1..Len(o.a) |-> NMul(I(i - 1), o.a[i])])
CatCentral(o, j) ==
  LET m == CatMean(o)
  IN  Sum([i \in 1..Len(o.a) |-> NMul(NPowNat(NSub(I(i - 1), m), j), o.a[i])])
CatCentralAbs(o, j) ==
  LET m == CatMean(o)
  IN  Sum([i \in 1..Len(o.a) |-> NMul(NPowNat(NAbs(NSub(I(i - 1), m)), j), o.a[i])])

Mean(o) ==
  LET a == o.a IN
  CASE o.fam = "bernoulli" -> Exact(a[1])
    [] o.fam = "binomial" -> Exact(NMul(a[1], a[2]))
    [] o.fam = "categorical" -> Exact(CatMean(o))
    [] o.fam = "beta" ->
         <<NAdd(a[3], NDiv(NMul(NSub(a[4], a[3]), a[1]), NAdd(a[1], a[2]))),
           NAdd(NAbs(a[3]), NAbs(a[4]))>>
    [] o.fam = "pert" -> <<NDiv(Sum(<<a[1], NMul(I(4), a[2]), a[3]>>), I(6)),
                           NAdd(NAbs(a[1]), NAbs(a[3]))>>
    [] o.fam = "exponential" -> Exact(NDiv(One, a[1]))
    [] o.fam = "gamma" -> Exact(NMul(a[1], a[2]))
    [] o.fam \in {"gaussian", "laplace", "logistic"} -> Exact(a[1])
    [] o.fam = "lognormal" ->
         LET e == NAdd(a[1], NMul(Half, Sq(a[2])))
             v == Exp(e)
         IN  <<v, NMul(v, Sum(<<One, NAbs(a[1]), Sq(a[2])>>))>>
    [] o.fam = "triangular" -> <<NDiv(Sum(a), I(3)), NAdd(NAbs(a[1]), NAbs(a[2]))>>
    [] o.fam = "uniform" -> <<NMul(Half, NAdd(a[1], a[2])), NAdd(NAbs(a[1]), NAbs(a[2]))>>

Variance(o) ==
  LET a == o.a IN
  CASE o.fam = "bernoulli" -> Exact(NMul(a[1], a[2]))
    [] o.fam = "binomial" -> Exact(NMul(a[1], NMul(a[2], a[3])))
    [] o.fam = "categorical" -> <<CatCentral(o, 2), NAdd(CatCentral(o, 2), Pow2(-40))>>
    [] o.fam \in {"beta", "pert"} ->
         LET b == AsBeta(o)
             s == NAdd(b[1], b[2])
             v == NDiv(NMul(Sq(NSub(b[4], b[3])), NMul(b[1], b[2])), NMul(Sq(s), NAdd(s, One)))
         IN  Exact(v)
    [] o.fam = "exponential" -> Exact(NDiv(One, Sq(a[1])))
    [] o.fam = "gamma" -> Exact(NMul(a[1], Sq(a[2])))
    [] o.fam = "gaussian" -> Exact(Sq(a[2]))
    [] o.fam = "laplace" -> Exact(NMul(Two, Sq(a[2])))
    [] o.fam = "logistic" -> Exact(NDiv(Sq(NMul(Pi, a[2])), I(3)))
    [] o.fam = "lognormal" ->
         LET s2 == Sq(a[2])
             v == NMul(Expm1(s2), Exp(NAdd(NMul(Two, a[1]), s2)))
         IN  <<v, NMul(v, Sum(<<One, s2, NMul(Two, NAbs(a[1]))>>))>>
    [] o.fam = "triangular" ->
         Exact(NDiv(NSub(Sum(<<Sq(a[1]), Sq(a[2]), Sq(a[3])>>),
                         Sum(<<NMul(a[1], a[2]), NMul(a[1], a[3]), NMul(a[2], a[3])>>)), I(18)))
    [] o.fam = "uniform" -> Exact(NDiv(Sq(NSub(a[2], a[1])), I(12)))

Skewness(o) ==
  LET a == o.a IN
  CASE o.fam = "bernoulli" ->
         LET sd == NSqrt(NMul(a[1], a[2])) IN <<NDiv(NSub(a[2], a[1]), sd), NDiv(One, sd)>>
    [] o.fam = "binomial" ->
         LET sd == NSqrt(NMul(a[1], NMul(a[2], a[3])))
         IN  <<NDiv(NSub(a[3], a[2]), sd), NDiv(One, sd)>>
    [] o.fam = "categorical" ->
         LET v == CatCentral(o, 2)
             c == NMul(v, NSqrt(v))
         IN  <<NDiv(CatCentral(o, 3), c), NMul(NDiv(CatCentralAbs(o, 3), c), NAdd(One, NDiv(One, v)))>>
    [] o.fam \in {"beta", "pert"} ->
         LET b == AsBeta(o)
             s == NAdd(b[1], b[2])
             c == NMul(NDiv(Two, NMul(NAdd(s, Two), NSqrt(NMul(b[1], b[2])))),
                       NSqrt(NAdd(s, One)))
             m == NMul(s, c)
         IN  <<NMul(NSub(b[2], b[1]), c), m>>
    [] o.fam = "exponential" -> Exact(Two)
    [] o.fam = "gamma" -> Exact(NDiv(Two, NSqrt(a[1])))
    [] o.fam \in {"gaussian", "laplace", "logistic", "uniform"} -> Exact(Zero)
    [] o.fam = "lognormal" ->
         LET s2 == Sq(a[2])
             e == Exp(s2)
             v == NMul(NSqrt(Expm1(s2)), NAdd(Two, e))
         IN  <<v, NMul(v, NAdd(One, s2))>>
    [] o.fam = "triangular" ->
         LET p == NMul(NMul(NSub(NAdd(a[1], a[2]), NMul(Two, a[3])),
                            NSub(NSub(NMul(Two, a[1]), a[2]), a[3])),
                       NAdd(NSub(a[1], NMul(Two, a[2])), a[3]))
             d == NMul(I(18), Variance(o)[1])
         IN  <<NDiv(NMul(Sqrt2, p), NMul(I(5), NMul(d, NSqrt(d)))), One>>

Kurtosis(o) ==                                          \* excess kurtosis
  LET a == o.a IN
  CASE o.fam = "bernoulli" ->
         LET v == NMul(a[1], a[2])
         IN  <<NDiv(NSub(One, NMul(I(6), v)), v), NAdd(I(6), NDiv(One, v))>>
    [] o.fam = "binomial" ->
         LET pq == NMul(a[2], a[3])
             v == NMul(a[1], pq)
         IN  <<NDiv(NSub(One, NMul(I(6), pq)), v), NDiv(I(4), v)>>
    [] o.fam = "categorical" ->
         LET v == CatCentral(o, 2)
             t == NDiv(CatCentral(o, 4), Sq(v))
         IN  <<NSub(t, I(3)), NMul(NAdd(t, I(3)), NAdd(One, NDiv(One, v)))>>
    [] o.fam \in {"beta", "pert"} ->
         LET b == AsBeta(o)
             s == NAdd(b[1], b[2])
             ab == NMul(b[1], b[2])
             t1 == NMul(Sq(NSub(b[1], b[2])), NAdd(s, One))
             t2 == NMul(ab, NAdd(s, Two))
             c == NDiv(I(6), NMul(ab, NMul(NAdd(s, Two), NAdd(s, I(3)))))
             m == NMul(c, NAdd(NMul(Sq(s), NAdd(s, One)), t2))
         IN  <<NMul(c, NSub(t1, t2)), m>>
    [] o.fam = "exponential" -> Exact(I(6))
    [] o.fam = "gamma" -> Exact(NDiv(I(6), a[1]))
    [] o.fam = "gaussian" -> Exact(Zero)
    [] o.fam = "laplace" -> Exact(I(3))
    [] o.fam = "logistic" -> Exact(NRat(6, 5))
    [] o.fam = "uniform" -> Exact(NRat(-6, 5))
    [] o.fam = "triangular" -> Exact(NRat(-3, 5))
    [] o.fam = "lognormal" ->
         LET s2 == Sq(a[2])
             e(j) == Expm1(NMul(I(j), s2))
             v == Sum(<<e(4), NMul(Two, e(3)), NMul(I(3), e(2))>>)
         IN  <<v, NMul(v, NAdd(Two, s2))>>
-----------------------------------------------------------------------------
(* Entropy.                                                                *)
Terms(s) == <<Sum(s), Sum([i \in 1..Len(s) |-> NAbs(s[i])])>>
MinusXLnX(p) == IF p \in {Zero, One} THEN Zero ELSE NNeg(NMul(p, Ln(p)))

\* The binomial masses satisfy m(k+1)/m(k) = (n-k) p / ((k+1) q); sum
\* -m ln m outwards from the mode, both ways, until the terms vanish.
RECURSIVE EntUp(_, _, _, _)
EntUp(a, k, m, acc) ==
  IF NLt(m, Pow2(-110)) THEN acc
  ELSE LET acc1 == NAdd(acc, MinusXLnX(m))
       IN  IF k = a[1] THEN acc1
           ELSE EntUp(a, NAdd(k, One),
                      NDiv(NMul(m, NMul(NSub(a[1], k), a[2])), NMul(NAdd(k, One), a[3])), acc1)
RECURSIVE EntDown(_, _, _, _)
EntDown(a, k, m, acc) ==
  IF NLt(m, Pow2(-110)) THEN acc
  ELSE LET acc1 == NAdd(acc, MinusXLnX(m))
       IN  IF k = Zero THEN acc1
           ELSE EntDown(a, NSub(k, One),
                        NDiv(NMul(m, NMul(k, a[3])), NMul(NAdd(NSub(a[1], k), One), a[2])), acc1)
BinomialMode(a) == NMin(a[1], Floor(NMul(NAdd(a[1], One), a[2])))
BinomialEntropy(o) ==
  LET a == o.a
      k0 == BinomialMode(a)
      m0 == Mass(o, k0)
      up == EntUp(a, k0, m0, Zero)
  IN  IF k0 = Zero THEN up
      ELSE EntDown(a, NSub(k0, One),
                   NDiv(NMul(m0, NMul(k0, a[3])), NMul(NAdd(NSub(a[1], k0), One), a[2])), up)

Entropy(o) ==
  LET a == o.a IN
  CASE o.fam = "bernoulli" -> LET m == NMin(a[1], a[2])      \* ln of the other is ln(1 - m)
                            IN  IF m = Zero THEN <<Zero, Zero>>
                                ELSE Terms(<<MinusXLnX(m), NNeg(NMul(NSub(One, m), Ln1p(NNeg(m))))>>)
    [] o.fam = "categorical" -> LET v == Sum([i \in 1..Len(a) |-> MinusXLnX(a[i])])
                                IN <<v, v>>                    \* nothing cancels
    [] o.fam = "binomial" -> LET v == BinomialEntropy(o) IN <<v, NAdd(One, v)>>
    [] o.fam \in {"beta", "pert"} ->
         LET b == AsBeta(o)
             s == NAdd(b[1], b[2])
             t == Terms(<<Ln(NSub(b[4], b[3])), LnBeta(b[1], b[2]),
                          NNeg(NMul(NSub(b[1], One), Digamma(b[1]))),
                          NNeg(NMul(NSub(b[2], One), Digamma(b[2]))),
                          NMul(NSub(s, Two), Digamma(s)), One>>)
         IN  <<NSub(t[1], One), t[2]>>
    [] o.fam = "cauchy" -> Terms(<<Ln(NMul(I(4), Pi)), Ln(a[2])>>)
    [] o.fam = "exponential" -> Terms(<<One, NNeg(Ln(a[1]))>>)
    [] o.fam = "gamma" ->
         Terms(<<a[1], Ln(a[2]), LnGamma(a[1]), NMul(NSub(One, a[1]), Digamma(a[1]))>>)
    [] o.fam = "gaussian" -> Terms(<<Half, HalfLn2Pi, Ln(a[2])>>)
    [] o.fam = "laplace" -> Terms(<<One, Ln2, Ln(a[2])>>)
    [] o.fam = "logistic" -> Terms(<<Two, Ln(a[2])>>)
    [] o.fam = "lognormal" -> Terms(<<Half, HalfLn2Pi, Ln(a[2]), a[1]>>)
    [] o.fam = "triangular" -> Terms(<<Half, Ln(NMul(Half, NSub(a[2], a[1])))>>)
    [] o.fam = "uniform" -> <<Ln(NSub(a[2], a[1])), NAdd(One, NAbs(Ln(NSub(a[2], a[1]))))>>
=============================================================================
