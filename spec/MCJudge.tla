------------------------------- MODULE MCJudge -------------------------------
(***************************************************************************)
(* The verdicts of Judge on every family and kind of query: the exact      *)
(* answer, rounded, is accepted; one that is off by a thousandth of a      *)
(* percent, a wrong sign, a NaN, an infinity is not; quantiles are what    *)
(* the distribution function inverts.                                      *)
(***************************************************************************)
EXTENDS MCLaws
K(x) == NInt(x)
DiscObjects == <<
  [fam |-> "bernoulli", a |-> <<q(1, 4), q(3, 4)>>], [fam |-> "bernoulli", a |-> <<q(1, 2), q(1, 2)>>],
  [fam |-> "binomial", a |-> <<K(1), q(3, 4), q(1, 4)>>], [fam |-> "binomial", a |-> <<K(16), q(1, 4), q(3, 4)>>],
  [fam |-> "binomial", a |-> <<K(40), q(1, 2), q(1, 2)>>], [fam |-> "binomial", a |-> <<K(3000), q(1, 64), q(63, 64)>>],
  [fam |-> "categorical", a |-> <<q(1, 2), q(1, 8), q(3, 8)>>], [fam |-> "categorical", a |-> <<Zero, q(1, 4), q(3, 4), Zero>>]
>>
Total == Len(Objects) + Len(DiscObjects)
Subject(i) == IF i <= Len(Objects) THEN [fam |-> Objects[i].fam, a |-> Objects[i].a] ELSE DiscObjects[i - Len(Objects)]
Points(i) == IF i <= Len(Objects)
             THEN LET c == Objects[i].cuts n == Len(c) IN {c[j] : j \in 1..n} \cup {NMul(Half, NAdd(c[j], c[j + 1])) : j \in 1..(n - 1)}
             ELSE {K(k) : k \in {x \in {0, 1, 2, 3, 5, 16, 20, 47, 60} : NLe(K(x), SupHi(Subject(i)))}}
Uns == {"mean", "var", "sd", "skew", "kurt", "ent"}
VARIABLES ask
JInit == at \in 1..Total /\ nodes = <<>> /\ ask = <<>>
s == Subject(at)
Disc == s.fam \in Discrete
Asks == {<<"cdf", x>> : x \in Points(at)}
        \cup (IF Disc THEN {<<"pmf", x>> : x \in Points(at)} ELSE {<<"pdf", x>> : x \in Points(at)})
        \cup (IF s.fam = "gamma" THEN {} ELSE {<<"inv", x>> : x \in Points(at)})
        \cup (IF s.fam = "cauchy" THEN {<<"ent", Zero>>} ELSE {<<op, Zero>> : op \in Uns})
        \cup (IF s.fam = "uniform" THEN {} ELSE {<<"modes", Zero>>})
        \cup (IF s.fam \in {"gamma", "binomial", "bernoulli", "categorical"} THEN {} ELSE {<<"med", Zero>>})
JNext == ask = <<>> /\ ask' \in Asks /\ UNCHANGED <<at, nodes>>
JView == <<at, ask>>
op == ask[1]
x == ask[2]
\* the point where the distribution function is one half
RECURSIVE Halve(_, _, _)
Halve(lo, hi, n) == LET m == NMul(Half, NAdd(lo, hi))
                    IN  IF n = 0 THEN m ELSE IF NLt(Lower(s, m), Half) THEN Halve(m, hi, n - 1) ELSE Halve(lo, m, n - 1)
RECURSIVE Wide(_)
Wide(w) == LET lo == IF SupLo(s) = NegInf THEN NSub(s.a[1], w) ELSE SupLo(s)
               hi == IF SupHi(s) = PosInf THEN NAdd(lo, NMul(Two, w)) ELSE SupHi(s)
           IN  IF NLt(Lower(s, hi), Half) THEN Wide(NMul(Two, w)) ELSE <<lo, hi>>
Median == LET b == Wide(One) IN Halve(b[1], b[2], 70)
Truth1 == CASE op = "cdf" -> Lower(s, x) [] op = "pdf" -> Density(s, x) [] op = "pmf" -> Mass(s, x)
            [] op = "inv" -> x [] op = "modes" -> Modes(s) [] op = "med" -> Median
            [] OTHER -> Raw(s, op)[1]
\* an attained value; for counts the middle of a step
Pr == IF Disc THEN NSub(Lower(s, x), NMul(Half, Mass(s, x))) ELSE Lower(s, x)
Ok(r) == IF op = "inv" THEN IF Disc THEN JudgeDiscQuantile(s, Pr, NSub(One, Pr), r).ok ELSE JudgeQuantile(s, Pr, Upper(s, x), r).ok
         ELSE Judge(s, "new", op, x, r).ok
Rounded(v) == IF IsNum(v) THEN NMul(v, NAdd(One, Pow2(-53))) ELSE v
\* outcomes without probability are nobody's quantile; ends take p = 0 or 1
Askable == op = "inv" => Pr # Zero /\ Pr # One /\ (Disc => Mass(s, x) # Zero)
Skip == op \in {"skew", "kurt"} /\ Degenerate(s)
\* what an answer has to be off by to be refused: a share of itself, or of
\* the scale of the law where the answer is a place
Spread == IF s.fam = "cauchy" THEN s.a[2] ELSE LET v == Variance(s)[1] IN NSqrt(v)
Coarse == op \in {"inv", "med"} /\ s.fam = "beta"
Jump(v) == IF op \in {"inv", "med", "mean", "modes"} THEN NMul(Spread, Pow2(IF Coarse THEN -4 ELSE -16))
           ELSE IF op \in {"cdf", "pdf", "pmf", "var", "sd"} THEN NMul(v, Pow2(-16))
           ELSE NMul(NAdd(Raw(s, op)[2], Pow2(-4)), Pow2(-16))
Sound == ask # <<>> /\ Askable /\ ~Skip =>
  IF op = "modes" THEN Ok(Truth1) ELSE Ok(Truth1) /\ ((Disc /\ op = "inv") \/ (s.fam = "categorical" /\ op = "pmf") \/ Ok(Rounded(Truth1)))
Sharp == ask # <<>> /\ Askable /\ ~Skip =>
  LET v == Truth1 IN
  IF op = "modes" THEN ~Ok(Append(v, Zero)) /\ (v # <<>> => ~Ok(Tail(v)) /\ ~Ok([i \in 1..Len(v) |-> NAdd(v[i], Jump(v[i]))])
                                                            /\ ~Ok([i \in 1..Len(v) |-> NaN]))
  ELSE /\ ~Ok(NaN) /\ (v # PosInf => ~Ok(PosInf)) /\ ~Ok(NegInf)
       /\ IF op = "inv" /\ Disc THEN ~Ok(NAdd(v, One)) /\ ~Ok(NSub(v, One)) /\ ~Ok(NAdd(v, Half)) /\ ~Ok(NNeg(One))
          ELSE IsNum(v) /\ v # Zero =>
            /\ ~Ok(NAdd(v, Jump(v))) /\ ~Ok(NSub(v, Jump(v)))
            /\ op \in {"cdf", "pdf", "pmf", "var", "sd"} => ~Ok(NNeg(v))
=============================================================================
