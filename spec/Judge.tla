------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* When does a floating-point answer r count as the true value v?          *)
(* Every quantity comes with a magnitude m that bounds the rounding error  *)
(* of a reasonable evaluation in units of 2^-53 (the conditioning of the   *)
(* formula, not of one program), and Slack(o, op) says how many of the 53  *)
(* bits may be lost.                                                       *)
(***************************************************************************)
EXTENDS Dist, TLC

Floor0 == Pow2(-900)                       \* below this, underflow is fine

\* ceil(log2(|r - v| / m)) up to one
Dev(r, v, m) == IF r = v THEN -999
                ELSE Exp2(NDiv(NAbs(NSub(r, v)), NAdd(NAbs(m), Floor0)))

\* |ln x| of a positive number, or 0
AbsLn(x) == IF x[1] <= 0 THEN Zero ELSE NAbs(Ln(x))
LogSize(s) == NMul(s, NAdd(One, AbsLn(s)))

\* beta parameters of the families whose CDF is an incomplete beta, at x
BetaOf(o, x) ==
  IF o.fam = "binomial"
  THEN LET k == Floor(x) IN <<NSub(o.a[1], k), NAdd(k, One), Zero, One>>
  ELSE AsBeta(o)

CdfMag(o, x, v) ==
  CASE o.fam \in {"cauchy", "triangular"} -> One
    [] o.fam \in {"gaussian"} -> One
    [] o.fam = "lognormal" ->
         \* rounding of ln x and of ln x - mu, through a density of at most 2/5
         NAdd(One, NDiv(NAdd(NAbs(o.a[1]), AbsLn(x)), o.a[2]))
    [] o.fam = "logistic" \/ o.fam = "laplace" ->
         NMul(v, NAdd(One, NDiv(NAbs(NSub(x, o.a[1])), o.a[2])))
    [] o.fam = "gamma" -> NMul(v, Sum(<<One, LogSize(o.a[1]), NDiv(x, o.a[2]),
                                        NMul(o.a[1], AbsLn(NDiv(x, o.a[2])))>>))
    [] o.fam \in {"beta", "pert", "binomial"} ->
         IF v \in {Zero, One} THEN v ELSE
         LET b == BetaOf(o, x)
             s == NAdd(b[1], b[2])
             y == IF o.fam = "binomial" THEN o.a[3] ELSE NDiv(NSub(x, b[3]), NSub(b[4], b[3]))
         IN  NMul(v, Sum(<<One, LogSize(s), NMul(b[1], AbsLn(y))>>))
    [] OTHER -> v

\* sum of absolute terms of the exponent of a density
PdfMag(o, x, v) ==
  LET a == o.a IN
  IF ~IsNum(v) THEN v ELSE
  CASE o.fam \in {"beta", "pert"} ->
         LET b == AsBeta(o)
             w == NSub(b[4], b[3])
             y == NDiv(NSub(x, b[3]), w)
             yc == NDiv(NSub(b[4], x), w)
         IN  IF y[1] <= 0 \/ yc[1] <= 0 THEN v
             ELSE NMul(v, Sum(<<One, NMul(NAbs(NSub(b[1], One)), NAdd(One, AbsLn(y))),
                                     NMul(NAbs(NSub(b[2], One)), NAdd(NDiv(One, yc), AbsLn(yc))),
                                     LogSize(NAdd(b[1], b[2]))>>))
    [] o.fam = "gamma" ->
         LET t == NDiv(x, a[2])
         IN  NMul(v, Sum(<<One, NMul(a[1], NAdd(AbsLn(x), AbsLn(a[2]))), t, LogSize(a[1])>>))
    [] o.fam = "exponential" -> NMul(v, NAdd(One, NMul(a[1], NAbs(x))))
    [] o.fam \in {"laplace", "logistic"} ->
         NMul(v, NAdd(One, NDiv(NAbs(NSub(x, a[1])), a[2])))
    [] o.fam = "gaussian" -> NMul(v, NAdd(One, Sq(NDiv(NSub(x, a[1]), a[2]))))
    [] o.fam = "lognormal" ->
         IF v = Zero THEN v ELSE
         LET z == NDiv(NSub(Ln(x), a[1]), a[2])
         IN  NMul(v, Sum(<<One, Sq(z), NMul(NAbs(z), NDiv(NAdd(AbsLn(x), NAbs(a[1])), a[2]))>>))
    [] OTHER -> v

PmfMag(o, k, v) ==
  IF o.fam # "binomial" \/ v = Zero THEN v ELSE
  LET a == o.a
      r == NSub(a[1], k)
      np == NMul(a[1], a[2])
      nq == NMul(a[1], a[3])
      T(x, y) == IF x = Zero \/ y = Zero THEN Zero ELSE NMul(x, AbsLn(NDiv(x, y)))
  IN  NMul(v, Sum(<<One, T(k, np), T(r, nq), NAbs(NSub(k, np))>>))


-----------------------------------------------------------------------------
(* Verdicts.  Each is [ok, d, c]: whether the answer is admissible, how far *)
(* it is from the truth in bits of its magnitude (-999 exact, 999 outside   *)
(* every scale), and the class of the case, for coverage counts.            *)
Exactly == -999
Off     == 999
Verdict(ok, d, c) == [ok |-> ok, d |-> d, c |-> c]
Within(r, v, m, bits, c) ==
  IF r = v THEN Verdict(TRUE, Exactly, c)
  ELSE IF ~IsNum(r) \/ ~IsNum(v) THEN Verdict(FALSE, Off, c)
  ELSE LET d == Dev(r, v, m) IN Verdict(d <= bits, d, c)
Exact3(r, v, c) == Verdict(r = v, IF r = v THEN Exactly ELSE Off, c)
Truth(b, c) == Verdict(b, IF b THEN Exactly ELSE Off, c)

MinP == Pow2(-80)
PClass(v) == IF v = Zero THEN "zero" ELSE IF v = One THEN "one"
             ELSE IF NLt(v, MinP) THEN "far" ELSE IF NLt(v, NRat(1, 50)) THEN "tail"
             ELSE IF NLt(v, Half) THEN "low" ELSE IF NLt(v, NRat(49, 50)) THEN "high" ELSE "top"

\* A double x given relative to the interval [lo, hi] is only known to a unit
\* in its last place once the implementation has rescaled it: the values at
\* the neighbouring arguments bracket the admissible answers.
Nudge(x, m, bits, up) == LET d == NMul(m, Pow2(bits)) IN IF up THEN NAdd(x, d) ELSE NSub(x, d)
XMag(o, x) ==
  CASE o.fam \in {"gaussian", "laplace", "logistic", "cauchy"} -> NAdd(NAbs(x), NAbs(o.a[1]))
    [] o.fam = "lognormal" -> IF x[1] <= 0 THEN Zero
                              ELSE NMul(x, Sum(<<One, AbsLn(x), NAbs(o.a[1])>>))
    [] o.fam \in {"beta", "pert", "triangular", "uniform"} -> NAdd(NAbs(x), NAbs(SupLo(o)))
    [] OTHER -> NAbs(x)
\* the same, when a double y = (x - lo) / (hi - lo) stands between
YMag(o, x) == IF o.fam \in {"beta", "pert"} THEN NAdd(NAbs(NSub(x, SupLo(o))), XMag(o, x)) ELSE XMag(o, x)

CdfBits == -42
JudgeCdf(o, x, r) ==
  IF x = PosInf THEN Exact3(r, One, "inf") ELSE IF x = NegInf THEN Exact3(r, Zero, "inf")
  ELSE
  LET v == Lower(o, x)
      c == PClass(v)
      w == Within(r, v, NAdd(CdfMag(o, x, v), Pow2(-60)), CdfBits, c)
  IN  IF ~IsNum(r) THEN Verdict(FALSE, Off, c)
      ELSE IF w.ok \/ o.fam \notin {"beta", "pert"} THEN w
      ELSE LET a == Lower(o, Nudge(x, YMag(o, x), -50, FALSE))
               b == Lower(o, Nudge(x, YMag(o, x), -50, TRUE))
               e == NMul(NAdd(CdfMag(o, x, v), Pow2(-60)), Pow2(CdfBits))
           IN  IF NLe(NSub(a, e), r) /\ NLe(r, NAdd(b, e)) THEN Verdict(TRUE, CdfBits, c) ELSE w

PdfBits == -40
\* a density is a standard one over a unit: where the standard one underflows,
\* the quotient is lost with it
PdfUnit(o, x) ==
  CASE o.fam \in {"gaussian", "laplace", "logistic", "cauchy", "gamma"} -> o.a[2]
    [] o.fam = "exponential" -> NDiv(One, o.a[1])
    [] o.fam = "lognormal" -> IF x[1] <= 0 THEN One ELSE NMul(x, o.a[2])
    [] OTHER -> NSub(SupHi(o), SupLo(o))
JudgePdf(o, x, r) ==
  LET v == Density(o, x)
      lo == SupLo(o)
      hi == SupHi(o)
      c == IF v = Zero THEN "off" ELSE IF x = lo \/ x = hi THEN "end"
           ELSE IF ~IsNum(v) THEN "inf" ELSE IF NLt(v, MinP) THEN "far" ELSE "in"
  IN  IF IsNum(v) /\ IsNum(r) /\ r[1] < 0 THEN Verdict(FALSE, Off, c)
      ELSE LET w == Within(r, v, IF IsNum(v) /\ IsNum(x) THEN NAdd(PdfMag(o, x, v), NDiv(Floor0, PdfUnit(o, x))) ELSE v, PdfBits, c)
           IN  IF w.ok \/ r \in {NaN, NegInf} \/ o.fam \notin {"beta", "pert"} \/ x \in {lo, hi} \/ v = Zero THEN w
               ELSE LET xa == Nudge(x, YMag(o, x), -50, FALSE)
                        xb == Nudge(x, YMag(o, x), -50, TRUE)
                        a == IF NLe(xa, lo) THEN Density(o, lo) ELSE Density(o, xa)
                        b == IF NLe(hi, xb) THEN Density(o, hi) ELSE Density(o, xb)
                        mn == IF XLe(a, b) THEN a ELSE b
                        mx == IF XLe(a, b) THEN b ELSE a
                        e == NMul(PdfMag(o, x, v), Pow2(PdfBits))
                    IN  IF XLe(IF IsNum(mn) THEN NSub(mn, e) ELSE mn, r)
                           /\ XLe(r, IF IsNum(mx) THEN NAdd(mx, e) ELSE mx)
                        THEN Verdict(TRUE, PdfBits, c) ELSE w

\* The recorded finding on the Stirling correction of 11 (see DESIGN.md): the
\* mass is off by exp(+-Eleven), + when 11 is the number of trials, - when it
\* is the number of successes or of failures.
\* 7.757367548795184079e-03 - 7.573675487951840795e-03
Eleven == NDiv(NAdd(NMul(I(183692060), NPow10(9)), I(843343284)), NPow10(21))
ElevenSign(o, k) ==
  LET e == I(11) n == o.a[1] IN
  IF k = Zero \/ k = n THEN 0
  ELSE (IF n = e THEN 1 ELSE 0) - (IF k = e THEN 1 ELSE 0) - (IF NSub(n, k) = e THEN 1 ELSE 0)
ElevenMass(o, k) == NMul(Mass(o, k), Exp(NMul(I(ElevenSign(o, k)), Eleven)))

PmfBits == -40
JudgePmf(o, k, r) ==
  LET v == Mass(o, k)
      c == IF k[1] < 0 \/ NLt(SupHi(o), k) THEN "off" ELSE IF v = Zero THEN "zero"
           ELSE IF k = Zero \/ k = SupHi(o) THEN "end" ELSE IF NLt(v, MinP) THEN "far" ELSE "in"
  IN  IF o.fam # "binomial" \/ c = "off"
      THEN Within(r, v, v, -51, c)
      ELSE LET w == Within(r, v, PmfMag(o, k, v), PmfBits, c)
           IN  IF ~w.ok /\ ElevenSign(o, k) # 0 /\ Within(r, ElevenMass(o, k), PmfMag(o, k, v), PmfBits, c).ok
               THEN Verdict(FALSE, Off, "eleven") ELSE w
-----------------------------------------------------------------------------
(* Quantiles of continuous families: the value at p, where pc = 1 - p.      *)
\* how precisely the quantile of o is promised, as <<relative, absolute>>
\* bits of probability
Small(o) == o.fam = "beta" /\ (NLt(o.a[1], One) \/ NLt(o.a[2], One))
QBits(o) ==
  IF Small(o) THEN IF NLe(NMax(o.a[1], o.a[2]), I(20)) THEN <<-24, -30>> ELSE <<-24, -14>>
  ELSE IF o.fam = "beta" THEN <<-24, -46>>
  ELSE IF o.fam = "pert" THEN <<-36, -46>>
  ELSE IF o.fam \in {"cauchy", "logistic", "triangular"} THEN <<-42, -48>>
  ELSE <<-42, -200>>
\* the relative precision lost with large shapes, beside that of QBits
QLoss(o) ==
  IF o.fam # "beta" THEN Zero
  ELSE LET u == NMul(NMax(o.a[1], o.a[2]), NRat(1, 30000)) IN NMul(NMul(u, u), Pow2(-12))
\* the step at which Newton's method on a beta with a shape below one stops
QStep(o) ==
  IF Small(o) THEN NMul(NSub(SupHi(o), SupLo(o)), Pow2(-46)) ELSE Zero
\* shapes for which the inverse incomplete beta (AS 64/109) finds the quantile;
\* that it does not for others is a recorded finding, see DESIGN.md
QReach(o) ==
  o.fam # "beta" \/ LET l == NMin(o.a[1], o.a[2]) u == NMax(o.a[1], o.a[2])
                    IN NLe(NRat(1, 5), l) /\ NLe(u, IF NLt(l, NRat(3, 10)) THEN I(1000) ELSE I(30000))

JudgeQuantile(o, p, pc, r) ==
  IF p = Zero THEN Exact3(r, SupLo(o), "p0")
  ELSE IF pc = Zero THEN Exact3(r, SupHi(o), "p1")
  ELSE IF ~IsNum(r) THEN Verdict(FALSE, Off, "nan")
  ELSE IF ~(XLe(SupLo(o), r) /\ XLe(r, SupHi(o))) THEN Verdict(FALSE, Off, "out")
  ELSE LET low == NLe(p, pc)
           t   == IF low THEN p ELSE pc
           \* mass on the near side of y
           S(y) == IF low THEN Lower(o, y) ELSE Upper(o, y)
           b   == QBits(o)
           e   == NAdd(NMul(t, NAdd(Pow2(b[1]), QLoss(o))), IF low /\ o.fam = "logistic" THEN Zero ELSE Pow2(b[2]))
           v   == S(r)
           c   == IF NLt(t, Pow2(-30)) THEN IF low THEN "far-" ELSE "far+" ELSE IF low THEN "low" ELSE "high"
           d   == Dev(v, t, t)
       IN  IF NLe(NAbs(NSub(v, t)), e) THEN Verdict(TRUE, d, c)
           ELSE LET m  == NAdd(XMag(o, r), NMul(QStep(o), Pow2(44)))
                    ra == Nudge(r, m, -44, ~low)
                    rb == Nudge(r, m, -44, low)
                    ok == NLe(S(ra), NAdd(t, e)) /\ NLe(NSub(t, e), S(rb))
                IN  Verdict(ok, IF ok THEN -44 ELSE d, IF ok \/ QReach(o) THEN c ELSE "reach")
-----------------------------------------------------------------------------
(* Quantiles of discrete families: k is the least outcome of positive       *)
(* probability with F(k) >= p, sums being known to eps.                     *)
Dyadic(p) == \A i \in 1..Len(p) : IsInteger(NMul(p[i], Pow2(20)))
SumExact(o) == o.fam = "categorical" /\ Dyadic(o.a) /\ Sum(o.a) = One
\* slack of a comparison of p with the cumulative probability at an outcome
DiscEps(o, p, pc) ==
  CASE o.fam = "bernoulli" -> NMul(o.a[2], Pow2(-53))
    [] o.fam = "categorical" -> IF SumExact(o) THEN Zero
                                ELSE NMul(IF NLe(p, pc) THEN p ELSE One, Pow2(IF Len(o.a) <= 64 THEN -46 ELSE -40))
    [] o.fam = "binomial" -> NAdd(NMul(NMin(p, pc), NMul(Pow2(-40), LogSize(NAdd(o.a[1], One)))),
                                  IF NLe(p, pc) THEN Pow2(-1000) ELSE Pow2(-48))
NormalApprox(o) == NLe(I(1000), o.a[1]) /\ NLt(I(80), NMul(o.a[1], NMul(o.a[2], o.a[3])))
\* where the approximation is within one count
ApproxReach == Pow2(-60)
\* F(k) >= p and F(k - 1) < p up to eps, on the tail nearer to p
AtLeast(o, k, p, pc, e) ==
  IF NLe(p, pc) THEN NLe(NSub(p, e), Lower(o, k)) ELSE NLe(Upper(o, k), NAdd(pc, e))
Before(o, k, p, pc, e) ==
  IF k[1] < 0 THEN TRUE
  ELSE IF NLe(p, pc) THEN IF e = Zero THEN NLt(Lower(o, k), p) ELSE NLt(Lower(o, k), NAdd(p, e))
  ELSE IF e = Zero THEN NLt(pc, Upper(o, k)) ELSE NLt(NSub(pc, e), Upper(o, k))
\* the recorded finding on Newton's method (see DESIGN.md): the count before
\* the quantile, where p exceeds its cumulative probability by no more than
\* half its mass
NewtonCase(o) == o.fam = "binomial" /\ NLe(I(1000), o.a[1]) /\ ~NormalApprox(o)
Nearest(o, k, p, pc) ==
  LET m == NMul(NRat(55, 100), Mass(o, k)) IN
  /\ NLt(k, o.a[1]) => AtLeast(o, NAdd(k, One), p, pc, DiscEps(o, p, pc))
  /\ IF NLe(p, pc) THEN NLt(Lower(o, k), p) /\ NLe(p, NAdd(Lower(o, k), m))
     ELSE NLt(pc, Upper(o, k)) /\ NLe(NSub(Upper(o, k), m), pc)

FirstOutcome(o) ==
  IF o.fam # "categorical" THEN Zero
  ELSE I((CHOOSE i \in 1..Len(o.a) : o.a[i] # Zero /\ \A j \in 1..(i - 1) : o.a[j] = Zero) - 1)
LastOutcome(o) ==
  IF o.fam # "categorical" THEN SupHi(o)
  ELSE I((CHOOSE i \in 1..Len(o.a) : o.a[i] # Zero /\ \A j \in (i + 1)..Len(o.a) : o.a[j] = Zero) - 1)

IsOutcome(o, k) == IsNum(k) /\ IsInteger(k) /\ k[1] >= 0 /\ NLe(k, SupHi(o))
                   /\ (o.fam = "categorical" => o.a[NFloor(k) + 1] # Zero)

\* the outcome before k that has positive probability, or -1
PrevOutcome(o, k) ==
  IF o.fam # "categorical" THEN NSub(k, One)
  ELSE LET n == NFloor(k)
           S == {i \in 1..n : o.a[i] # Zero}
       IN  IF S = {} THEN I(-1) ELSE I((CHOOSE i \in S : \A j \in S : j <= i) - 1)

JudgeDiscQuantile(o, p, pc, r) ==
  LET approx == o.fam = "binomial" /\ NormalApprox(o)
      c0 == IF p = Zero THEN "p0" ELSE IF pc = Zero THEN "p1" ELSE PClass(p)
      c  == IF approx THEN "approx-" \o c0 ELSE c0
      e  == DiscEps(o, p, pc)
  IN  IF ~IsOutcome(o, r) THEN Verdict(FALSE, Off, c)
      ELSE IF p = Zero THEN Exact3(r, FirstOutcome(o), c)
      ELSE IF pc = Zero /\ r = LastOutcome(o) THEN Verdict(TRUE, Exactly, c)
      ELSE IF approx /\ NLt(NMin(p, pc), ApproxReach) /\ pc # Zero THEN Verdict(TRUE, 2, c \o "-beyond")
      ELSE IF pc = Zero /\ o.fam = "binomial" THEN Verdict(FALSE, Off, c)
      ELSE IF AtLeast(o, r, p, pc, e) /\ Before(o, PrevOutcome(o, r), p, pc, e)
           THEN Verdict(TRUE, Exactly, c)
      ELSE IF approx THEN
             LET ok == AtLeast(o, NAdd(r, One), p, pc, e) /\ Before(o, NSub(r, Two), p, pc, e)
             IN Verdict(ok, IF ok THEN 1 ELSE Off, c)
      ELSE IF NewtonCase(o) /\ Nearest(o, r, p, pc) THEN Verdict(FALSE, Off, "nearest")
      ELSE Verdict(FALSE, Off, c)
-----------------------------------------------------------------------------
(* Moments and entropy.                                                     *)
MomentBits == -42
Degenerate(o) == o.fam \in Discrete /\ Variance(o)[1] = Zero

Raw(o, op) ==
  CASE op = "mean" -> Mean(o)
    [] op = "var" -> Variance(o)
    [] op = "sd" -> LET v == Variance(o) s == NSqrt(v[1])
                    IN <<s, IF s = Zero THEN Pow2(-20) ELSE NDiv(v[2], s)>>
    [] op = "skew" -> Skewness(o)
    [] op = "kurt" -> Kurtosis(o)
    [] op = "ent" -> Entropy(o)
\* the entropy of the masses with the recorded finding
ElevenEntropy(o, v) ==
  LET n == o.a[1]
      ks == IF n = I(11) THEN {I(i) : i \in 1..10}
            ELSE {k \in {I(11), NSub(n, I(11))} : k[1] > 0 /\ NLt(k, n)}
  IN  FoldSet(LAMBDA k, acc : NAdd(acc, NSub(MinusXLnX(ElevenMass(o, k)), MinusXLnX(Mass(o, k)))), v, ks)
Overflow(v) == IsNum(v) /\ NLt(Pow2(1020), NAbs(v))
\* a variance that no normal double can hold
Unfit(v) == v[1] > 0 /\ (NLt(v, Pow2(-1020)) \/ NLt(Pow2(1020), v))

EntropyApprox(o) == o.fam = "binomial" /\ NLt(I(10000), o.a[1])
                    /\ NLt(I(80), NMul(o.a[1], NMul(o.a[2], o.a[3])))
JudgeMoment(o, op, r) ==
  IF op \in {"skew", "kurt"} /\ Degenerate(o) THEN Verdict(TRUE, Exactly, "undefined")
  ELSE IF op = "ent" /\ EntropyApprox(o) THEN
    \* 1/2 ln(2 pi e npq), whose error is O(1 / npq)
    LET npq == NMul(o.a[1], NMul(o.a[2], o.a[3]))
        v == NAdd(NAdd(Half, HalfLn2Pi), NMul(Half, Ln(npq)))
    IN  Within(r, v, NAdd(One, NAbs(v)), MomentBits, "approx")
  ELSE LET v == Raw(o, op)
       IN  IF Overflow(v[1]) \/ (op = "sd" /\ Unfit(Sq(v[1]))) \/ (op = "var" /\ Unfit(v[1]))
           THEN Verdict(TRUE, Exactly, "overflow")
           ELSE LET w == Within(r, v[1], v[2], MomentBits,
                                IF op = "ent" THEN IF o.fam \in Discrete THEN "sum" ELSE "closed" ELSE "value")
                IN  IF ~w.ok /\ op = "ent" /\ o.fam = "binomial" /\ Within(r, ElevenEntropy(o, v[1]), v[2], MomentBits, "").ok
                    THEN Verdict(FALSE, Off, "eleven") ELSE w
-----------------------------------------------------------------------------
(* Median and modes.                                                        *)
\* r >= 1/2 of the mass on either side, sums being known to e
SplitsInHalf(o, r, e) ==
  LET k == Floor(r)
      below == IF IsInteger(r) THEN NSub(k, One) ELSE k      \* P(X < r) = F(below)
  IN  /\ NLe(NSub(Half, e), Lower(o, k))
      /\ below[1] < 0 \/ NLe(NSub(Half, e), Upper(o, below))
MedianEps(o) == CASE o.fam = "bernoulli" -> Pow2(-52)
                  [] o.fam = "categorical" -> IF SumExact(o) THEN Zero ELSE Pow2(-39)
                  [] o.fam = "binomial" -> Pow2(-40)
JudgeMedian(o, r) ==
  IF ~IsNum(r) THEN Verdict(FALSE, Off, "nan")
  ELSE IF o.fam \in Discrete THEN
    IF r[1] < 0 \/ NLt(SupHi(o), r) THEN Verdict(FALSE, Off, "out")
    ELSE IF SplitsInHalf(o, r, MedianEps(o)) THEN Verdict(TRUE, Exactly, IF IsInteger(r) THEN "outcome" ELSE "between")
    ELSE IF o.fam = "binomial" /\ NLt(I(1000), o.a[1]) /\ NormalApprox(o) THEN
      LET ok == SplitsInHalf(o, NAdd(r, One), MedianEps(o)) \/ (r # Zero /\ SplitsInHalf(o, NSub(r, One), MedianEps(o)))
      IN  Verdict(ok, IF ok THEN 1 ELSE Off, "approx")
    ELSE IF o.fam = "categorical" /\ NSub(r, Floor(r)) = Half /\ NLe(NAbs(NSub(Lower(o, NAdd(Floor(r), One)), Half)), Pow2(-39))
         THEN Verdict(FALSE, Off, "half-step")      \* the recorded finding, see DESIGN.md
    ELSE IF NewtonCase(o) /\ IsInteger(r) /\ Nearest(o, r, Half, Half) THEN Verdict(FALSE, Off, "nearest")
    ELSE Verdict(FALSE, Off, "wrong")
  ELSE IF o.fam = "beta" /\ NLt(One, o.a[1]) /\ NLt(One, o.a[2]) /\ o.a[1] # o.a[2] THEN
    \* (alpha - 1/3) / (alpha + beta - 2/3) is within 0.0142 least^(-3/2)
    LET d == NAbs(NSub(Lower(o, r), Half))
        least == NMin(o.a[1], o.a[2])
    IN  Verdict(NLe(NMul(d, NMul(least, NSqrt(least))), NRat(1, 50)), Dev(Lower(o, r), Half, Half), "closed")
  ELSE JudgeQuantile(o, Half, Half, r)

\* the global maximizers of the density or mass, in increasing order
CatMax(p) == CHOOSE m \in {p[i] : i \in 1..Len(p)} : \A i \in 1..Len(p) : NLe(p[i], m)
RECURSIVE CatModesAt(_, _, _)
CatModesAt(p, m, i) == IF i > Len(p) THEN <<>>
                       ELSE (IF p[i] = m THEN <<I(i - 1)>> ELSE <<>>) \o CatModesAt(p, m, i + 1)
BetaModes(b) ==
  LET al == b[1] be == b[2]
      s(x) == IF x = One THEN 0 ELSE IF NLt(x, One) THEN -1 ELSE 1
  IN  CASE s(al) = 0 /\ s(be) = 0 -> <<>>
        [] s(al) = -1 /\ s(be) = -1 -> <<b[3], b[4]>>
        [] s(al) = 1 /\ s(be) = 1 ->
             <<NAdd(b[3], NDiv(NMul(NSub(b[4], b[3]), NSub(al, One)), NSub(NAdd(al, be), Two)))>>
        [] s(al) < s(be) -> <<b[3]>>
        [] OTHER -> <<b[4]>>
BinModeReal(a) == NMul(NAdd(a[1], One), a[2])
Modes(o) ==
  LET a == o.a IN
  CASE o.fam = "bernoulli" -> IF a[1] = a[2] THEN <<Zero, One>> ELSE IF NLt(a[1], a[2]) THEN <<Zero>> ELSE <<One>>
    [] o.fam = "binomial" ->
         LET r == BinModeReal(a) k == NMin(a[1], Floor(r))
         IN  IF IsInteger(r) /\ NLe(r, a[1]) /\ r # Zero THEN <<NSub(r, One), r>> ELSE <<k>>
    [] o.fam = "categorical" -> CatModesAt(a, CatMax(a), 1)
    [] o.fam \in {"beta", "pert"} -> BetaModes(AsBeta(o))
    [] o.fam \in {"cauchy", "gaussian", "laplace", "logistic"} -> <<a[1]>>
    [] o.fam = "exponential" -> <<Zero>>
    [] o.fam = "gamma" -> IF NLt(a[1], One) THEN <<>> ELSE <<NMul(NSub(a[1], One), a[2])>>
    [] o.fam = "lognormal" -> <<Exp(NSub(a[1], Sq(a[2])))>>
    [] o.fam = "triangular" -> <<a[3]>>
ModeMag(o, v) ==
  CASE o.fam = "beta" -> NAdd(NAbs(o.a[3]), NAbs(v))
    [] o.fam = "pert" -> NAdd(NAbs(o.a[1]), NAbs(o.a[3]))
    [] o.fam = "gamma" -> v
    [] o.fam = "lognormal" -> NMul(v, Sum(<<One, NAbs(o.a[1]), Sq(o.a[2])>>))
    [] OTHER -> Zero
JudgeModes(o, r) ==
  LET v == Modes(o)
      c == CASE Len(v) = 0 -> "none" [] Len(v) = 1 -> "one" [] OTHER -> "many"
  IN  IF o.fam = "binomial" THEN
        \* (n + 1) p within rounding of an integer: either neighbour or both
        LET x == BinModeReal(o.a)
            k == Floor(NAdd(x, Half))
            near == x # k /\ NLt(NAbs(NSub(x, k)), NMul(NAdd(x, One), Pow2(-50)))
            in == NLe(k, o.a[1]) /\ k # Zero
        IN  IF NLe(Pow2(50), o.a[1])        \* counts beyond floating point
            THEN Truth(Len(r) \in {1, 2} /\ \A i \in 1..Len(r) : IsOutcome(o, r[i]) /\ NLe(NAbs(NSub(r[i], x)), NAdd(Two, NMul(NAdd(x, One), Pow2(-50)))), "vast")
            ELSE IF near /\ in
            THEN Truth(r \in {<<NSub(k, One)>>, <<k>>, <<NSub(k, One), k>>}, "near-tie")
            ELSE Exact3(r, v, c)
      ELSE IF Len(r) # Len(v) THEN Verdict(FALSE, Off, c)
      ELSE IF \A i \in 1..Len(v) : Within(r[i], v[i], ModeMag(o, v[i]), -44, c).ok
           THEN Verdict(TRUE, IF r = v THEN Exactly ELSE -44, c) ELSE Verdict(FALSE, Off, c)
-----------------------------------------------------------------------------
(* Constructors and accessors.                                              *)
\* the valid domain of the arguments as given to the constructor
\* and nothing near overflow
Finite(a) == \A i \in 1..Len(a) : IsNum(a[i]) /\ NLe(NAbs(a[i]), Pow2(1000))
Pos(x) == IsNum(x) /\ x[1] > 0
In01(x) == Pos(x) /\ NLt(x, One)
ValidArgs(f, a) ==
  CASE f = "bernoulli" -> In01(a[1])
    [] f = "binomial" -> In01(a[2])
    [] f = "categorical" -> /\ Len(a) > 0 /\ Finite(a)
                            /\ \A i \in 1..Len(a) : a[i][1] >= 0 /\ NLe(a[i], One)
                            /\ NLt(NAbs(NSub(Sum(a), One)), NDiv(I(9), NPow10(13)))
    [] f = "beta" -> Pos(a[1]) /\ Pos(a[2]) /\ Finite(a) /\ NLt(a[3], a[4])
    [] f \in {"cauchy", "gaussian", "laplace", "logistic", "lognormal"} -> IsNum(a[1]) /\ Pos(a[2])
    [] f = "exponential" -> Pos(a[1])
    [] f = "gamma" -> Pos(a[1]) /\ Pos(a[2])
    [] f = "pert" -> Finite(a) /\ NLt(a[1], a[2]) /\ NLt(a[2], a[3])
    [] f = "triangular" -> Finite(a) /\ NLt(a[1], a[2]) /\ NLe(a[1], a[3]) /\ NLe(a[3], a[2])
    [] f = "uniform" -> Finite(a) /\ NLt(a[1], a[2])
\* arguments that must be refused
BadArgs(f, a) ==
  LET nan == \E i \in 1..Len(a) : a[i] = NaN
      Nonpos(x) == x = NegInf \/ (IsNum(x) /\ x[1] <= 0)
      Lt(x, y) == XLe(x, y) /\ x # y
  IN  CASE f = "bernoulli" -> nan \/ Nonpos(a[1]) \/ XLe(One, a[1])
        [] f = "binomial" -> nan \/ Nonpos(a[2]) \/ XLe(One, a[2])
        [] f = "categorical" -> nan \/ Len(a) = 0 \/ (\E i \in 1..Len(a) : a[i] \in {PosInf, NegInf}
                                \/ a[i][1] < 0 \/ XLt(One, a[i]))
                                \/ NLt(NDiv(I(11), NPow10(13)), NAbs(NSub(Sum(a), One)))
        [] f = "beta" -> nan \/ Nonpos(a[1]) \/ Nonpos(a[2]) \/ ~Lt(a[3], a[4])
        [] f \in {"cauchy", "gaussian", "laplace", "logistic", "lognormal"} -> a[2] = NaN \/ Nonpos(a[2])
        [] f = "exponential" -> nan \/ Nonpos(a[1])
        [] f = "gamma" -> nan \/ Nonpos(a[1]) \/ Nonpos(a[2])
        [] f = "pert" -> nan \/ ~(Lt(a[1], a[2]) /\ Lt(a[2], a[3]))
        [] f = "triangular" -> nan \/ ~(Lt(a[1], a[2]) /\ XLe(a[1], a[3]) /\ XLe(a[3], a[2]))
        [] f = "uniform" -> nan \/ ~Lt(a[1], a[2])
\* the object made from the constructor's arguments
Object(f, ctor, a) ==
  CASE ctor = "def" -> [fam |-> f, a |-> <<Zero, One>>]
    [] f = "bernoulli" -> LET c == NSub(One, a[1])
                          IN [fam |-> f, a |-> IF ctor = "wf" THEN <<c, a[1]>> ELSE <<a[1], c>>]
    [] f = "binomial" -> LET c == NSub(One, a[2])
                         IN [fam |-> f, a |-> IF ctor = "wf" THEN <<a[1], c, a[2]>> ELSE <<a[1], a[2], c>>]
    [] OTHER -> [fam |-> f, a |-> a]
\* accessors: exactly the given parameters, derived ones to rounding
JudgeGet(o, ctor, r) ==
  LET a == o.a
      Near(x, y) == Within(x, y, One, -53, "").ok
  IN  CASE o.fam = "bernoulli" -> Truth(IF ctor = "wf" THEN r[2] = a[2] /\ Near(r[1], a[1])
                                        ELSE r[1] = a[1] /\ Near(r[2], a[2]), ctor)
        [] o.fam = "binomial" -> Truth(r[1] = a[1] /\ IF ctor = "wf" THEN r[3] = a[3] /\ Near(r[2], a[2])
                                                     ELSE r[2] = a[2] /\ Near(r[3], a[3]), ctor)
        [] o.fam = "categorical" -> Truth(r = <<I(Len(a))>> \o a, ctor)
        [] o.fam = "pert" -> LET b == PertBeta(a)
                             IN Truth(/\ SubSeq(r, 1, 3) = a
                                      /\ Within(r[4], b[1], b[1], -50, "").ok
                                      /\ Within(r[5], b[2], b[2], -50, "").ok, ctor)
        [] OTHER -> Truth(r = a, ctor)
-----------------------------------------------------------------------------
\* the verdict on the answer r to the query op(x) of an object made by ctor
Judge(o, ctor, op, x, r) ==
  CASE op = "cdf" -> JudgeCdf(o, x, r)
    [] op = "pdf" -> JudgePdf(o, x, r)
    [] op = "pmf" -> JudgePmf(o, x, r)
    [] op = "inv" -> IF o.fam \in Discrete THEN JudgeDiscQuantile(o, x, NSub(One, x), r)
                     ELSE JudgeQuantile(o, x, NSub(One, x), r)
    [] op = "med" -> JudgeMedian(o, r)
    [] op = "modes" -> JudgeModes(o, r)
    [] op = "get" -> JudgeGet(o, ctor, r)
    [] OTHER -> JudgeMoment(o, op, r)
=============================================================================
