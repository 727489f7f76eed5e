------------------------------- MODULE MCCtor -------------------------------
(***************************************************************************)
(* The constructors on a grid of special arguments for every family: what  *)
(* must be accepted and what must be refused exclude each other and leave  *)
(* open only the cases named here, and an object made of accepted          *)
(* arguments is a law: its tails add up and end where its support ends,    *)
(* its spread is positive, its accessors are its arguments.  Exports the   *)
(* calls.                                                                  *)
(***************************************************************************)
EXTENDS Judge, Json, IOUtils
CONSTANTS Fine
Ulp == Pow2(-52)
Base == {NaN, NegInf, PosInf, NInt(-1), Zero, NRat(1, 2), One, Two}
Grid == IF Fine THEN Base \cup {NNeg(Pow2(-1074)), Pow2(-1074), Pow2(-1022), NSub(One, Pow2(-53)), NAdd(One, Ulp), NInt(-1000), NShift(One, 900), NNeg(NShift(One, 900))}
        ELSE Base \cup {Pow2(-1022), NSub(One, Pow2(-53)), NAdd(One, Ulp)}
Counts == {Zero, One, I(7), I(1000), NShift(One, 40)}
\* neighbours and equals, for what is ordered
Ordered == {NegInf, I(-1), Zero, One, NAdd(One, Ulp), I(2), PosInf, NaN}
Shapes == {NaN, I(-1), Zero, NRat(1, 2), I(3)}
Weights == {NRat(-1, 4), Zero, NRat(1, 4), NRat(1, 2), One, NaN, PosInf}
Loc2 == {"cauchy", "gaussian", "laplace", "logistic", "lognormal", "gamma", "uniform"}
Calls ==
       {<<"bernoulli", c, <<x>>>> : c \in {"new", "wf"}, x \in Grid}
  \cup {<<"binomial", c, <<n, x>>>> : c \in {"new", "wf"}, n \in Counts, x \in Grid}
  \cup {<<"exponential", "new", <<x>>>> : x \in Grid}
  \cup {<<f, "new", <<x, y>>>> : f \in Loc2, x \in Grid, y \in Grid}
  \cup {<<f, "new", <<x, y, z>>>> : f \in {"triangular", "pert"}, x \in Ordered, y \in Ordered, z \in Ordered}
  \cup {<<"beta", "new", <<al, be, x, y>>>> : al \in Shapes, be \in Shapes, x \in Ordered, y \in Ordered}
  \cup {<<"categorical", "new", <<x>>>> : x \in Weights}
  \cup {<<"categorical", "new", <<x, y>>>> : x \in Weights, y \in Weights}
  \cup {<<"categorical", "new", <<x, y, z>>>> : x \in Weights, y \in Weights, z \in Weights}
  \cup {<<"categorical", "new", <<NSub(Half, e), NAdd(Half, d)>>>> : e \in {Zero, Pow2(-53), Pow2(-45), Pow2(-30)}, d \in {Zero, Pow2(-52), Pow2(-41), Pow2(-36)}}
VARIABLES call, done
Init == call \in Calls /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED call
f == call[1]
a == call[3]
Valid == ValidArgs(f, a)
Bad == BadArgs(f, a)
\* what is left open: infinities that the documentation does not exclude,
\* and sums of weights at the limit of the precision they are taken with
Infinite == \E i \in 1..Len(a) : a[i] \in {PosInf, NegInf}
NanLocation == f \in {"cauchy", "gaussian", "laplace", "logistic", "lognormal"} /\ a[1] = NaN
Tenth == NDiv(One, NPow10(12))
Limit == f = "categorical" /\ \A i \in 1..Len(a) : IsNum(a[i]) /\ NLt(NAbs(NSub(NAbs(NSub(Sum(a), One)), Tenth)), NMul(NRat(1, 9), Tenth))
Apart == ~(Valid /\ Bad)
Settled == Valid \/ Bad \/ Infinite \/ NanLocation \/ Limit
O == Object(f, call[2], a)
Points == {I(-3), Zero, NRat(1, 4), One, NRat(9, 8), I(5)}
\* not where a parameter is so large or small that the points say nothing
Modest == \A i \in 1..Len(a) : a[i] = Zero \/ (NLt(Pow2(-60), NAbs(a[i])) /\ NLt(NAbs(a[i]), Pow2(60)))
Near(x, y) == NLe(NAbs(NSub(x, y)), Pow2(-40))
ALaw == done /\ Valid =>
  /\ XLe(SupLo(O), SupHi(O))
  /\ Modest => \A x \in Points :
       LET t == Tails(O, x)
       IN  /\ t[1][1] >= 0 /\ t[2][1] >= 0 /\ Near(NAdd(t[1], t[2]), One)
           /\ XLt(x, SupLo(O)) => t[1] = Zero
           /\ XLt(SupHi(O), x) => t[1] = One
  /\ Modest /\ f # "cauchy" => Variance(O)[1][1] >= 0 /\ (f \notin Discrete => Variance(O)[1][1] > 0)
Got == CASE f = "bernoulli" -> O.a [] f = "binomial" -> O.a
         [] f = "categorical" -> <<I(Len(a))>> \o a
         [] f = "pert" -> a \o SubSeq(PertBeta(a), 1, 2)
         [] OTHER -> a
Accessors == done /\ Valid =>
  /\ JudgeGet(O, call[2], Got).ok
  /\ \A i \in 1..(IF f = "pert" THEN 3 ELSE Len(Got)) :
                               ~JudgeGet(O, call[2], [Got EXCEPT ![i] = NaN]).ok
                            /\ ~JudgeGet(O, call[2], [Got EXCEPT ![i] = NAdd(@, NMul(Pow2(-20), NAdd(One, NAbs(@))))]).ok
Rows == SetToSeq({[f |-> x[1], c |-> x[2], a |-> x[3]] : x \in Calls})
ASSUME ndJsonSerialize(IOEnv.EXPORT, Rows)
=============================================================================
