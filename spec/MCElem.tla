------------------------------- MODULE MCElem -------------------------------
(***************************************************************************)
(* The elementary and special functions of Elem satisfy their functional   *)
(* equations, which together with their values at single points define     *)
(* them.  Each state is a pair of arguments of a grid.  TLC evaluates the  *)
(* iterations through java/Elem.java; Pure is the same text without it.    *)
(***************************************************************************)
EXTENDS Elem, TLC, FiniteSets
Pure == INSTANCE ElemPure
CONSTANT N
I(n) == NInt(n)
\* positive arguments from 2^-40 to 2^40, denser near one
Grid == [i \in 1..N |->
           LET k == (i * 7919) % 10007
           IN  NMul(NRat(k + 3, 4096), Pow2(((i * 31) % 81) - 40))]
Mid == [i \in 1..N |-> NRat(((i * 6007) % 9973) + 1, 1 + ((i * 37) % 401))]      \* up to 1e4
Units == [i \in 1..N |-> NRat(((i * 4999) % 9973) + 1, 9975)]                     \* in (0, 1)

VARIABLES i, j
Init == i \in 1..N /\ j = 0
Next == j = 0 /\ j' \in 1..MinI(N, 12) /\ UNCHANGED i

Bits == -84
Is(x, y, m) == NLe(NAbs(NSub(x, y)), NMul(m, Pow2(Bits)))
Rel(x, y) == Is(x, y, NAbs(y))
Max1(x) == NAdd(One, NAbs(x))

x == Grid[i]
y == IF j = 0 THEN One ELSE Grid[((i * 13 + j * 101) % N) + 1]
a == Mid[i]
b == IF j = 0 THEN One ELSE Mid[((i * 13 + j * 101) % N) + 1]
u == Units[i]
v == IF j = 0 THEN Half ELSE Units[((i * 13 + j * 101) % N) + 1]

ASSUME Is(Ln(One), Zero, One) /\ Exp(Zero) = One /\ Atan(Zero) = Zero
ASSUME Is(Pi, PiMachin, One) /\ Is(NMul(SqrtPi, SqrtPi), Pi, One)
ASSUME Is(HalfLn2Pi, NMul(Half, Ln(NMul(Two, Pi))), One)
ASSUME Is(NMul(I(4), Atan(One)), Pi, One)
ASSUME \A n \in 1..60 : Is(LnGamma(I(n)), Ln(Fact(n - 1)), Max1(Ln(Fact(n - 1))))
ASSUME Is(LnGamma(Half), Ln(SqrtPi), One)
ASSUME \A n \in 1..13 : LET S(k) == NDiv(One, NPowNat(I(k), 2 * n))      \* zeta(2n) from B(2n), n > 5
                           IN  n <= 5 \/ NLe(NAbs(NSub(NDiv(NMul(NAbs(Bernoulli2(n)), NPowNat(NMul(Two, Pi), 2 * n)), NMul(Two, Fact(2 * n))),
                                            NAdd(One, NAdd(S(2), NAdd(S(3), S(4)))))), NMul(Two, S(5)))
\* exp and ln
Sum3(p, q) == NAdd(One, NAdd(NAbs(p), NAbs(q)))
LnLaws == /\ Is(Ln(NMul(x, y)), NAdd(Ln(x), Ln(y)), Sum3(Ln(x), Ln(y)))
          /\ Rel(Exp(Ln(x)), x)
          /\ Rel(Exp(NAdd(u, Ln(y))), NMul(Exp(u), y))
          /\ Rel(NMul(Exp(a), Exp(NNeg(a))), One) \/ NLt(I(2000), a)
          /\ Is(Expm1(u), NSub(Exp(u), One), One) /\ Is(Ln1p(u), Ln(NAdd(One, u)), One)
          /\ LET t == NMul(u, Pow2(-30))      \* two terms of the series: no cancellation
             IN  /\ NLe(NAbs(NSub(Expm1(t), NAdd(t, NMul(Half, NMul(t, t))))), NMul(t, NMul(t, t)))
                 /\ NLe(NAbs(NSub(Ln1p(t), NSub(t, NMul(Half, NMul(t, t))))), NMul(t, NMul(t, t)))
          /\ NLt(x, y) => NLt(Ln(x), Ln(y))
          \* the derivative at one: ln(1 + t) = t - t^2/2 + ..., fixes the base
          /\ Rel(Pow(x, Half), NSqrt(x))
\* tan(s + t), and the derivative at zero
AtanLaws == /\ LET s == u t == v
                   z == NDiv(NAdd(s, t), NSub(One, NMul(s, t)))
               IN  IF NLt(NMul(s, t), One) THEN Is(NAdd(Atan(s), Atan(t)), Atan(z), One)
                   ELSE Is(NAdd(Atan(s), Atan(t)), NAdd(Pi, Atan(z)), One)
            /\ Is(NAdd(Atan(x), Atan(NDiv(One, x))), HalfPi, One)
            /\ LET t == NMul(u, Pow2(-20)) IN NLe(NAbs(NSub(Atan(t), t)), NMul(t, NMul(t, t)))
\* Gamma: recurrence, duplication, and the digamma as its logarithmic derivative
GammaLaws == LET g == LnGamma(a) m == NAdd(Max1(g), NMul(a, Max1(Ln(a))))
             IN  /\ Is(LnGamma(NAdd(a, One)), NAdd(g, Ln(a)), m)
                 /\ Is(NAdd(g, LnGamma(NAdd(a, Half))),
                       NAdd(NMul(NSub(One, NMul(Two, a)), Ln2), NAdd(Ln(SqrtPi), LnGamma(NMul(Two, a)))), NMul(I(4), m))
                 /\ Is(Digamma(NAdd(a, One)), NAdd(Digamma(a), NDiv(One, a)), NAdd(Max1(Digamma(a)), NDiv(One, a)))
                 /\ LET h == NMul(a, Pow2(-30))        \* central difference, error h^2 / 6 * psi''
                        d == NDiv(NSub(LnGamma(NAdd(a, h)), LnGamma(NSub(a, h))), NMul(Two, h))
                    IN  NLe(NAbs(NSub(d, Digamma(a))), NMul(NAdd(NDiv(One, a), Max1(g)), Pow2(-45)))
\* incomplete gamma: P + Q = 1, recurrence in a, both expansions
Term(s, t) == Exp(NSub(NSub(NMul(s, Ln(t)), t), LnGamma(NAdd(s, One))))
IncGammaLaws == LET s == NMul(u, I(1 + (i % 7) * (i % 7) * (i % 7)))
                    t == NMul(v, I(1 + ((i + j) % 9) * ((i + j) % 9) * (i % 4)))
                IN  /\ LET p1 == IncGammaPSeries(s, t) p2 == IncGammaPSeries(NAdd(s, One), t)
                       IN  Is(NSub(p1, p2), Term(s, t), NAdd(p1, NMul(I(200), Term(s, t))))
                    /\ NLt(NAdd(s, One), t) => Is(NAdd(IncGammaPSeries(s, t), IncGammaQFrac(s, t)), One, NMul(I(400), One))
                    /\ j = 0 => LET h == Pow2(-32)       \* d/dt P(s, t) = t^(s-1) e^-t / Gamma(s)
                                    d == NDiv(NSub(IncGammaPSeries(s, NAdd(One, h)), IncGammaPSeries(s, NSub(One, h))), NMul(Two, h))
                                IN  NLe(NAbs(NSub(d, NMul(s, Term(s, One)))), Pow2(-45))
\* incomplete beta: symmetry, recurrence in a, polynomial cases
IncBetaLaws == LET p == NMul(u, I(1 + (i % 6) * (i % 6) * (i % 6)))
                   q == NMul(v, I(1 + (j % 5) * (j % 5) * ((i % 3) + 1)))
                   z == Units[((i * 17 + j * 29) % N) + 1]
                   zc == NSub(One, z)
                   v0 == IncBeta(p, q, z)
                   t == Exp(NSub(NAdd(NMul(p, Ln(z)), NMul(q, Ln(zc))), NAdd(Ln(p), LnBeta(p, q))))
               IN  /\ Is(NAdd(v0, IncBeta(q, p, zc)), One, NMul(I(4), One))
                   /\ Is(NSub(v0, IncBeta(NAdd(p, One), q, z)), t, NMul(I(4000), NAdd(v0, t)))
                   /\ Is(IncBeta(One, q, z), NSub(One, Exp(NMul(q, Ln(zc)))), NMul(I(400), One))
                   /\ Is(IncBeta(p, One, z), Exp(NMul(p, Ln(z))), NMul(I(4000), One))
\* normal: two tails, complement, and P(1/2, z^2 / 2)
NormalLaws == LET z == NMul(u, I(12))
                  lo == PhiLower(NNeg(z))
                  up == PhiUpper(NNeg(z))
              IN  /\ Is(NAdd(lo, up), One, One)
                  /\ PhiUpper(z) = lo
                  /\ NLt(z, I(5)) => Is(NSub(One, NMul(Two, lo)), IncGammaPSeries(Half, NMul(Half, NMul(z, z))), One)
                  /\ NLt(I(6), z) => Rel(NMul(Two, lo), IncGammaQFrac(Half, NMul(Half, NMul(z, z))))
\* the iterations by java/Elem.java and by their text, bit for bit
Same == LET s == NMul(u, I(1 + (i % 7) * (i % 7) * (i % 5)))
            t == NMul(v, I(1 + ((i + j) % 9) * ((i + j) % 9)))
            z == NSub(NAdd(s, t), Two)
        IN  /\ Pure!IncGammaPSeries(s, t) = IncGammaPSeries(s, t)
            /\ NLt(NAdd(s, One), t) => Pure!IncGammaQFrac(s, t) = IncGammaQFrac(s, t)
            /\ Pure!IncBeta(s, t, u) = IncBeta(s, t, u)
            /\ Pure!PhiLower(z) = PhiLower(z) /\ Pure!PhiUpper(z) = PhiUpper(z)
=============================================================================
