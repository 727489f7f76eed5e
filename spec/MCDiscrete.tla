----------------------------- MODULE MCDiscrete -----------------------------
(***************************************************************************)
(* The discrete laws of Dist and the verdicts of Judge, on every           *)
(* categorical vector of up to Width weights out of M (a power of two, so  *)
(* that they are doubles), every Bernoulli and every binomial of up to     *)
(* Trials trials with probabilities i / M.  The definitions by tails, by   *)
(* closed forms and by incomplete betas have to be those by summation, the *)
(* verdicts have to accept exactly the answers the definition allows, and  *)
(* the laws of a quantile function follow.  Exports the objects.           *)
(***************************************************************************)
EXTENDS Judge, Json, IOUtils
CONSTANTS Width, M, Trials, Coarse, Families

Fr(i) == NRat(i, M)
\* vectors of naturals of length n with sum s
RECURSIVE Splits(_, _)
Splits(n, s) == IF n = 1 THEN {<<s>>} ELSE UNION {{<<i>> \o t : t \in Splits(n - 1, s - i)} : i \in 0..s}
Cats == {[fam |-> "categorical", w |-> t] : t \in UNION {Splits(n, M) : n \in 1..Width}}
Bers == {[fam |-> "bernoulli", w |-> <<i>>] : i \in 1..(M - 1)}
Bins == {[fam |-> "binomial", w |-> <<n, i>>] : n \in 0..Trials, i \in 1..(M - 1)}
Cases == {x \in Cats \cup Bers \cup Bins : x.fam \in Families}
Object1(c) ==
  CASE c.fam = "categorical" -> [fam |-> c.fam, a |-> [i \in 1..Len(c.w) |-> Fr(c.w[i])]]
    [] c.fam = "bernoulli" -> [fam |-> c.fam, a |-> <<Fr(c.w[1]), NSub(One, Fr(c.w[1]))>>]
    [] c.fam = "binomial" -> [fam |-> c.fam, a |-> <<I(c.w[1]), Fr(c.w[2]), NSub(One, Fr(c.w[2]))>>]

RECURSIVE Partial(_, _)
Partial(s, k) == IF k = 0 THEN <<>> ELSE LET t == Partial(s, k - 1)
                                         IN Append(t, NAdd(IF k = 1 THEN Zero ELSE t[k - 1], s[k]))
VARIABLES c, p, o, ms, fs     \* a case, a probability in units of 1 / (4 M), masses, their sums
Init == /\ c \in Cases /\ p = -1
        /\ o = Object1(c)
        /\ ms = [i \in 1..(NFloor(SupHi(o)) + 1) |-> Mass(o, I(i - 1))]
        /\ fs = Partial(ms, Len(ms))
Next == p = -1 /\ p' \in {x \in 0..(4 * M) : c.fam = "binomial" => x % Coarse = 0} /\ UNCHANGED <<c, o, ms, fs>>
View == <<c, p>>
hi == Len(ms) - 1
Ks == 0..hi
m(k) == ms[k + 1]
F(k) == IF k < 0 THEN Zero ELSE fs[k + 1]
Total(G(_)) == Sum([i \in 1..(hi + 1) |-> G(i - 1)])
Near(x, y, s) == NLe(NAbs(NSub(x, y)), NMul(s, Pow2(-80)))

\* masses, tails, moments, entropy
Sums == p = -1 =>
  /\ Near(F(hi), One, One)
  /\ \A k \in Ks : m(k)[1] >= 0 /\ Near(Lower(o, I(k)), F(k), One) /\ Near(NAdd(Lower(o, I(k)), Upper(o, I(k))), One, One)
                   /\ Lower(o, NAdd(I(k), NRat(2, 3))) = Lower(o, I(k))
  /\ Mass(o, I(-1)) = Zero /\ Mass(o, I(hi + 1)) = Zero /\ Mass(o, Half) = Zero
  /\ Lower(o, NRat(-1, 3)) = Zero /\ Lower(o, I(hi)) = One
  /\ LET mu == Total(LAMBDA k : NMul(I(k), m(k)))
         C(j) == Total(LAMBDA k : NMul(NPowNat(NSub(I(k), mu), j), m(k)))
         v == C(2)
         Ok(x, y) == Near(x, y[1], NAdd(y[2], One))
     IN  /\ Ok(mu, Mean(o)) /\ Ok(v, Variance(o))
         /\ ~Degenerate(o) => Ok(NDiv(C(3), NMul(v, NSqrt(v))), Skewness(o)) /\ Ok(NSub(NDiv(C(4), Sq(v)), I(3)), Kurtosis(o))
         /\ Ok(Total(LAMBDA k : MinusXLnX(m(k))), Entropy(o))
\* binomial masses beyond the closed form: Pascal's rule in n
Pascal == p = -1 /\ c.fam = "binomial" /\ c.w[1] > 0 =>
  LET o1 == [fam |-> "binomial", a |-> <<I(c.w[1] - 1), o.a[2], o.a[3]>>]
  IN  \A k \in Ks : Near(m(k), NAdd(NMul(o.a[3], Mass(o1, I(k))), NMul(o.a[2], Mass(o1, I(k - 1)))), One)

\* the modes are the maximizers, the medians split
Maximizers == {k \in Ks : \A j \in Ks : NLe(m(j), NMul(m(k), NAdd(One, Pow2(-90))))}
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<I(x)>> \o Ascending(S \ {x})
ModesLaw == p = -1 => Modes(o) = Ascending(Maximizers)
Halves == 0..(2 * hi)                     \* candidate medians 0, 1/2, 1, ...
MedianLaw == p = -1 =>
  \A h \in Halves :
    LET r == NMul(Half, I(h))
        below == F((h + 1) \div 2 - 1)             \* P(X < r)
        upto == F(h \div 2)                        \* P(X <= r)
        splits == NLe(NSub(Half, Pow2(-60)), upto) /\ NLe(below, NAdd(Half, Pow2(-60)))
    IN  JudgeMedian(o, r).ok <=> splits

\* p is the least outcome problem: exactly the defined one is accepted
PP == NDiv(I(p), I(4 * M))
Least == {k \in Ks : m(k) # Zero /\ NLe(PP, NAdd(F(k), Pow2(-100))) /\ \A j \in 0..(k - 1) : m(j) = Zero \/ ~NLe(PP, NAdd(F(j), Pow2(-100)))}
Accepted == {k \in Ks : JudgeDiscQuantile(o, PP, NSub(One, PP), I(k)).ok}
\* sums that P attains are known to rounding only, so either side may be accepted there
Attained == c.fam # "categorical" /\ \E k \in Ks : Near(F(k), PP, Pow2(40))
QuantileLaw == p >= 0 =>
  /\ Cardinality(Least) = 1
  /\ Least \subseteq Accepted
  /\ Attained \/ (p = 4 * M /\ c.fam # "binomial") \/ Accepted = Least
  /\ \A k \in Accepted : m(k) # Zero
\* the sampler's judgement, on a word next to p: the same outcome
Word == LET x == Floor(NMul(PP, Pow2(64))) IN NMin(NMax(x, One), NSub(Pow2(64), Two))
SampleLaw == p >= 0 /\ p % 4 # 0 =>
  LET u == NDiv(Word, NSub(Pow2(64), One))
      S == {k \in Ks : LET e == NAdd(DiscEps(o, u, NSub(One, u)), Pow2(-62))
                       IN IsOutcome(o, I(k)) /\ AtLeast(o, I(k), u, NSub(One, u), e) /\ Before(o, PrevOutcome(o, I(k)), u, NSub(One, u), e)}
  IN  Attained \/ S = Least

Rows == SetToSeq({[f |-> x.fam, w |-> x.w, m |-> M] : x \in Cases})
ASSUME ndJsonSerialize(IOEnv.EXPORT, Rows)
=============================================================================
