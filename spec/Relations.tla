------------------------------ MODULE Relations ------------------------------
(***************************************************************************)
(* Related distributions: what the answers of one object say about the     *)
(* answers of another.  e.h and e.g are the handles, e.k the relation:     *)
(*   same     g has the law of h                                           *)
(*   affine   g has the law of s X + t, X ~ h, a = <<s, t>>, s > 0         *)
(*   mirror   g has the law of c - X, a = <<c>>, continuous                *)
(*   dmirror  the same for counts                                          *)
(*   exp      g has the law of exp X, X ~ h Gaussian                       *)
(* Each yields, for an answered query of h, the query of g it determines   *)
(* and the answer to expect there.                                         *)
(***************************************************************************)
EXTENDS Prob

None == <<>>
Unary == {"mean", "var", "sd", "skew", "kurt", "ent", "med", "modes"}
Place(op) == op \in {"inv", "med", "mean", "modes"}       \* answers on the axis of X
OnList(r, T(_)) == [i \in 1..Len(r) |-> IF IsNum(r[i]) THEN T(r[i]) ELSE r[i]]
OnNum(r, T(_)) == IF IsNum(r) THEN T(r) ELSE r

\* <<query of g, expected answer>> or None
Affine(k, r, s, t) ==
  LET op == k[1] x == k[2]
      T(y) == NAdd(NMul(s, y), t)
  IN  CASE op = "cdf" -> IF IsNum(x) THEN <<<<"cdf", T(x)>>, r>> ELSE <<k, r>>
        [] op = "pdf" -> <<<<"pdf", T(x)>>, OnNum(r, LAMBDA y : NDiv(y, s))>>
        [] op \in {"inv", "med", "mean"} -> <<k, OnNum(r, T)>>
        [] op = "modes" -> <<k, OnList(r, T)>>
        [] op = "sd" -> <<k, OnNum(r, LAMBDA y : NMul(s, y))>>
        [] op = "var" -> <<k, OnNum(r, LAMBDA y : NMul(Sq(s), y))>>
        [] op \in {"skew", "kurt"} -> <<k, r>>
        [] op = "ent" -> <<k, OnNum(r, LAMBDA y : NAdd(y, Ln(s)))>>
        [] OTHER -> None
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Mirror(k, r, c) ==
  LET op == k[1] x == k[2]
      T(y) == NSub(c, y)
  IN  CASE op = "cdf" -> IF IsNum(x) THEN <<<<"cdf", T(x)>>, OnNum(r, LAMBDA y : NSub(One, y))>> ELSE None
        [] op = "pdf" -> <<<<"pdf", T(x)>>, r>>
        [] op = "inv" -> <<<<"inv", NSub(One, x)>>, OnNum(r, T)>>
        [] op \in {"med", "mean"} -> <<k, OnNum(r, T)>>
        [] op = "modes" -> <<k, Rev(OnList(r, T))>>
        [] op = "skew" -> <<k, OnNum(r, NNeg)>>
        [] op \in {"sd", "var", "kurt", "ent"} -> <<k, r>>
        [] OTHER -> None
\* counts: F(y) of g at an outcome y is 1 - F(c - y - 1) of h
DMirror(k, r, c) ==
  LET op == k[1] x == k[2]
      T(y) == NSub(c, y)
  IN  CASE op = "cdf" -> IF IsNum(x) /\ IsInteger(x) THEN <<<<"cdf", NSub(T(x), One)>>, OnNum(r, LAMBDA y : NSub(One, y))>> ELSE None
        [] op = "pmf" -> <<<<"pmf", T(x)>>, r>>
        [] op = "mean" -> <<k, OnNum(r, T)>>
        [] op = "modes" -> <<k, Rev(OnList(r, T))>>
        [] op = "skew" -> <<k, OnNum(r, NNeg)>>
        [] op \in {"sd", "var", "kurt", "ent"} -> <<k, r>>
        [] OTHER -> None
\* a place of g whose logarithm is the place y of h, up to rounding
Logged(y, x) == IsNum(x) /\ Pos(x) /\ NLe(NAbs(NSub(Ln(x), y)), NMul(NMax(One, NAbs(y)), Pow2(-50)))
Expd(k, r, o, asked) ==
  LET op == k[1] y == k[2]
      at == IF op \in {"cdf", "pdf"} /\ IsNum(y) THEN {q \in asked : q[1] = op /\ Logged(y, q[2])} ELSE {}
  IN  CASE op \in {"inv", "med"} ->
             IF r = NegInf THEN <<k, Zero>> ELSE IF r = PosInf THEN <<k, PosInf>>
             ELSE IF IsNum(r) /\ NLt(NAbs(r), I(690)) THEN <<k, Exp(r)>> ELSE None
        [] op \in {"cdf", "pdf"} ->
             IF at = {} THEN None
             ELSE LET q == CHOOSE q \in at : TRUE
                  IN  <<q, IF op = "pdf" THEN OnNum(r, LAMBDA v : NDiv(v, q[2])) ELSE r>>
        [] op = "ent" -> <<k, OnNum(r, LAMBDA v : NAdd(v, o.a[1]))>>
        [] OTHER -> None

\* o is the object of e.h, asked the queries put to the object of e.g
Expect(e, k, r, o, asked) ==
  CASE e.k = "same" -> <<k, r>>
    [] e.k = "affine" -> Affine(k, r, e.a[1], e.a[2])
    [] e.k = "mirror" -> Mirror(k, r, e.a[1])
    [] e.k = "dmirror" -> DMirror(k, r, e.a[1])
    [] e.k = "exp" -> Expd(k, r, o, asked)
-----------------------------------------------------------------------------
\* magnitude of an answer of o, in the sense of Judge
Scale(o, x, r) == NAdd(XMag(o, r), IF o.fam \in {"gaussian", "laplace", "logistic", "cauchy"} THEN o.a[2] ELSE Zero)
AnswerMag(o, op, x, v) ==
  CASE op = "cdf" -> IF IsNum(x) THEN NAdd(One, CdfMag(o, x, v)) ELSE One
    [] op = "pdf" -> NAdd(PdfMag(o, x, v), v)
    [] op = "pmf" -> PmfMag(o, x, v)
    [] op \in {"inv", "med", "modes"} -> Scale(o, x, v)
    [] OTHER -> NAdd(Raw(o, op)[2], NMul(NAbs(v), One))
RelBits(o, op) == IF op = "inv" /\ o.fam = "beta" THEN -20
                  ELSE IF op \in {"inv", "med"} /\ o.fam \in {"beta", "pert"} THEN -30 ELSE -37
\* discrete quantiles and medians may move at ties, so they are compared by Judge only
Comparable(o1, o2, op) ==
  /\ ~(op \in {"inv", "med"} /\ {o1.fam, o2.fam} \cap Discrete # {})
  /\ ~(op \in {"skew", "kurt"} /\ (Degenerate(o1) \/ Degenerate(o2)))
  /\ ~(op = "ent" /\ (EntropyApprox(o1) \/ EntropyApprox(o2)))

CloseAnswers(e, o1, o2, k2, v, r2) ==
  LET op == k2[1]
      fam == IF o1.fam = "beta" THEN o1 ELSE o2
      Ok(x, y) == x = y \/ (IsNum(x) /\ IsNum(y) /\
                            Within(y, x, NAdd(AnswerMag(o2, op, k2[2], x), AnswerMag(o2, op, k2[2], y)), RelBits(fam, op), "").ok)
  IN  IF op = "modes" THEN Len(v) = Len(r2) /\ \A i \in 1..Len(v) : Ok(v[i], r2[i])
      ELSE Ok(v, r2)

RelFindings(e) ==
  IF ~({e.h, e.g} \subseteq DOMAIN objs) THEN <<>> ELSE
  LET o1 == Obj(e.h)
      o2 == Obj(e.g)
      m1 == Answers(e.h)
      m2 == Answers(e.g)
      ex == [k \in DOMAIN m1 |-> IF k[1] \in Unary \cup {"cdf", "pdf", "pmf", "inv"} THEN Expect(e, k, m1[k], o1, DOMAIN m2) ELSE None]
      ks == {k \in DOMAIN m1 : ex[k] # None /\ ex[k][1] \in DOMAIN m2 /\ Comparable(o1, o2, k[1])}
      Fnd(k) == LET v == ex[k] IN
              [p |-> "C20", c |-> e.k \o "/" \o o1.fam \o "-" \o o2.fam \o "/" \o k[1],
               v |-> Truth(CloseAnswers(e, o1, o2, v[1], v[2], m2[v[1]]), k[1])]
  IN  IF ks = {} THEN <<[p |-> "C20", c |-> e.k \o "/empty", v |-> Truth(FALSE, "empty")]>>
      ELSE LET sq == SetToSeq(ks) IN [i \in 1..Len(sq) |-> Fnd(sq[i])]
=============================================================================
