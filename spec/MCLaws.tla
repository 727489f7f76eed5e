------------------------------- MODULE MCLaws -------------------------------
(***************************************************************************)
(* The continuous laws of Dist against one another: the density integrates *)
(* to the distribution function between any two cuts, to both tails beyond *)
(* the cuts, and its first four moments and its entropy are the closed     *)
(* forms; its maximizers are the modes of Judge.  Integrals are double     *)
(* exponential quadratures, exact to far more than the 2^-34 required.     *)
(* A state is an object and a standpoint in its list of cuts.              *)
(***************************************************************************)
EXTENDS Judge
CONSTANT Fine                        \* reciprocal of the step
q(n, d) == NRat(n, d)
Obj(f, a, cuts) == [fam |-> f, a |-> a, cuts |-> cuts]
\* beta: cuts as fractions of the interval
BetaObj(al, be, lo, hi, cuts) ==
  Obj("beta", <<al, be, lo, hi>>, [i \in 1..Len(cuts) |-> NAdd(lo, NMul(NSub(hi, lo), cuts[i]))])
Objects == <<
  Obj("gaussian", <<Zero, One>>, <<q(-1, 1), Zero, q(5, 2)>>), Obj("gaussian", <<q(3, 1), q(1, 2)>>, <<q(5, 2), q(4, 1)>>),
  Obj("laplace", <<Zero, One>>, <<q(-3, 2), Zero, q(1, 3)>>), Obj("laplace", <<q(-1, 1), q(4, 1)>>, <<q(-1, 1), q(11, 1)>>),
  Obj("logistic", <<Zero, One>>, <<q(-3, 1), q(1, 2)>>), Obj("logistic", <<q(5, 1), q(1, 2)>>, <<q(5, 1), q(7, 1)>>),
  Obj("cauchy", <<Zero, One>>, <<q(-2, 1), Zero, q(1, 2)>>), Obj("cauchy", <<q(-2, 1), q(1, 4)>>, <<q(-2, 1), q(-1, 1)>>),
  Obj("lognormal", <<Zero, One>>, <<q(1, 2), One, q(8, 1)>>), Obj("lognormal", <<One, q(1, 4)>>, <<q(2, 1), q(3, 1)>>),
  Obj("exponential", <<One>>, <<q(1, 2), q(3, 1)>>), Obj("exponential", <<q(4, 1)>>, <<q(1, 7), One>>),
  Obj("gamma", <<q(1, 4), One>>, <<q(1, 50), One>>), Obj("gamma", <<One, q(2, 1)>>, <<One, q(5, 1)>>),
  Obj("gamma", <<q(3, 2), q(1, 3)>>, <<q(1, 6), One>>), Obj("gamma", <<q(10, 1), One>>, <<q(6, 1), q(9, 1), q(15, 1)>>),
  Obj("gamma", <<q(100, 1), q(1, 2)>>, <<q(40, 1), q(99, 2), q(60, 1)>>),
  BetaObj(q(1, 2), q(1, 2), Zero, One, <<q(1, 10), q(1, 2)>>), BetaObj(One, One, Zero, One, <<q(1, 3)>>),
  BetaObj(q(2, 1), q(5, 1), Zero, One, <<q(1, 5), q(1, 2)>>), BetaObj(q(2, 1), q(3, 1), q(-4, 1), q(4, 1), <<q(1, 3), q(1, 2)>>),
  BetaObj(q(1, 2), q(4, 1), One, q(5, 4), <<q(1, 100), q(1, 2)>>), BetaObj(q(3, 1), One, q(-2, 1), q(-1, 1), <<q(1, 2)>>),
  BetaObj(q(150, 1), q(300, 1), Zero, One, <<q(1, 4), q(149, 448), q(2, 5)>>),
  Obj("pert", <<Zero, q(1, 2), One>>, <<q(1, 2)>>), Obj("pert", <<q(-1, 1), q(2, 1), q(3, 1)>>, <<Zero, q(2, 1)>>),
  Obj("pert", <<Zero, q(1, 8), One>>, <<q(1, 8), q(3, 4)>>),
  Obj("triangular", <<Zero, One, q(1, 2)>>, <<q(1, 4), q(1, 2)>>), Obj("triangular", <<q(-2, 1), q(6, 1), q(-1, 1)>>, <<q(-1, 1), q(3, 1)>>),
  Obj("triangular", <<Zero, One, Zero>>, <<q(1, 3)>>), Obj("triangular", <<Zero, q(2, 1), q(2, 1)>>, <<q(1, 3)>>),
  Obj("uniform", <<Zero, One>>, <<q(1, 3)>>), Obj("uniform", <<q(-3, 1), q(5, 1)>>, <<Zero, q(2, 1)>>)
>>
-----------------------------------------------------------------------------
(* Quadrature nodes <<x, weight>>, weight including the step.               *)
Step == NDiv(One, NInt(Fine))
Ts(lo, hi) == [i \in 1..((hi - lo) * Fine + 1) |-> NAdd(NInt(lo), NMul(NInt(i - 1), Step))]
Finite2(a, b) ==
  LET w == NSub(b, a)
      T == Ts(-5, 5)
  IN  [i \in 1..Len(T) |->
        LET e == Exp(T[i])
            sh == NMul(Half, NSub(e, NDiv(One, e)))
            ch == NMul(Half, NAdd(e, NDiv(One, e)))
            d == Exp(NNeg(NMul(Pi, NAbs(sh))))
            small == NDiv(d, NAdd(One, d))            \* the smaller of y, 1 - y
            x == IF sh[1] <= 0 THEN NAdd(a, NMul(w, small)) ELSE NSub(b, NMul(w, small))
        IN  <<x, NMul(NMul(w, Step), NMul(NMul(Pi, ch), NMul(small, NSub(One, small))))>>]
\* from c to +-infinity, exponential or algebraic decay
HalfLine(c, s, sign, heavy) ==
  LET T == IF heavy THEN Ts(-5, 5) ELSE Ts(-5, 14)
  IN  [i \in 1..Len(T) |->
        LET e == Exp(T[i])
            g == IF heavy THEN Exp(NMul(HalfPi, NMul(Half, NSub(e, NDiv(One, e))))) ELSE Exp(NSub(T[i], NDiv(One, e)))
            d == IF heavy THEN NMul(HalfPi, NMul(Half, NAdd(e, NDiv(One, e)))) ELSE NAdd(One, NDiv(One, e))
            x == NMul(s, g)
        IN  <<NAdd(c, IF sign > 0 THEN x ELSE NNeg(x)), NMul(Step, NMul(x, d))>>]
Heavy(o) == o.fam = "cauchy"
ScaleOf(o) == CASE o.fam = "exponential" -> NDiv(One, o.a[1])
                [] o.fam = "gamma" -> NMul(o.a[2], NSqrt(o.a[1]))
                [] o.fam = "lognormal" -> Exp(o.a[1])
                [] OTHER -> o.a[2]
\* piece k of n + 1: up to cut 1, ..., beyond cut n
Piece(o, k) ==
  LET n == Len(o.cuts)
      lo == IF k = 1 THEN SupLo(o) ELSE o.cuts[k - 1]
      hi == IF k = n + 1 THEN SupHi(o) ELSE o.cuts[k]
  IN  IF lo = NegInf THEN HalfLine(hi, ScaleOf(o), -1, Heavy(o))
      ELSE IF hi = PosInf THEN HalfLine(lo, ScaleOf(o), 1, Heavy(o))
      ELSE Finite2(lo, hi)
\* <<x, f(x) dx, f(x)>>
Nodes(o, k) == LET N == Piece(o, k)
                   M == SelectSeq(N, LAMBDA t : XLt(SupLo(o), t[1]) /\ XLt(t[1], SupHi(o)))
               IN  [i \in 1..Len(M) |-> LET f == Density(o, M[i][1]) IN <<M[i][1], NMul(f, M[i][2]), f>>]
Integral(N, G(_)) == FoldLeft(LAMBDA acc, t : NAdd(acc, NMul(t[2], G(t))), Zero, N)
RECURSIVE AllNodes(_, _)
AllNodes(o, k) == IF k = 0 THEN <<>> ELSE AllNodes(o, k - 1) \o Nodes(o, k)

VARIABLES at, nodes      \* index of the object; its nodes piece by piece
View == <<at, Len(nodes)>>
Init == at \in 1..Len(Objects) /\ nodes = <<>>
Next == /\ Len(nodes) <= Len(Objects[at].cuts)
        /\ nodes' = Append(nodes, Nodes(Objects[at], Len(nodes) + 1))
        /\ UNCHANGED at
o == Objects[at]
Near(x, y, m) == NLe(NAbs(NSub(x, y)), NMul(m, Pow2(-34)))
Mass1(N) == Integral(N, LAMBDA t : One)
RECURSIVE Flat(_, _)
Flat(s, n) == IF n = 0 THEN <<>> ELSE Flat(s, n - 1) \o s[n]

\* between cuts, and in the tails
Areas == nodes # <<>> =>
  LET k == Len(nodes)
      n == Len(o.cuts)
      m == Mass1(nodes[k])
      want == IF k = 1 THEN Lower(o, o.cuts[1])
              ELSE IF k = n + 1 THEN Upper(o, o.cuts[n])
              ELSE NSub(Lower(o, o.cuts[k]), Lower(o, o.cuts[k - 1]))
  IN  /\ Near(m, want, want)
      /\ k <= n => Near(NAdd(Lower(o, o.cuts[k]), Upper(o, o.cuts[k])), One, One)
Complete == Len(nodes) = Len(o.cuts) + 1
\* moments and entropy
Moments == Complete =>
  LET N == Flat(nodes, Len(nodes))
      m == Integral(N, LAMBDA t : t[1])
      C(j) == Integral(N, LAMBDA t : NPowNat(NSub(t[1], m), j))
      v == C(2)
      sd == NSqrt(v)
      Ok(x, p) == Near(x, p[1], NAdd(p[2], One))
  IN  /\ Near(Mass1(N), One, One)
      /\ o.fam # "cauchy" =>
           /\ Ok(m, Mean(o)) /\ Near(v, Variance(o)[1], v)
           /\ Ok(NDiv(C(3), NMul(v, sd)), Skewness(o)) /\ Ok(NSub(NDiv(C(4), Sq(v)), NInt(3)), Kurtosis(o))
      /\ Ok(Integral(N, LAMBDA t : NNeg(Ln(t[3]))), Entropy(o))
\* no node is denser than a mode; where there is none the density is flat or unbounded at 0
Maximal == Complete =>
  LET N == Flat(nodes, Len(nodes))
      ms == IF o.fam = "uniform" THEN <<>> ELSE Modes(o)
  IN  \A i \in 1..Len(ms) :
        LET d == Density(o, ms[i])
        IN  d = PosInf \/ \A t \in 1..Len(N) : NLe(N[t][3], NMul(d, NAdd(One, Pow2(-100))))
=============================================================================
