------------------------------- MODULE Sampler -------------------------------
(***************************************************************************)
(* What a draw may return, as a function of the words it read: the state   *)
(* machines of the fourteen samplers.  A draw of object o that read w and  *)
(* returned r is admissible iff some run of the machine consumes exactly w *)
(* and yields r to rounding.                                               *)
(***************************************************************************)
EXTENDS Judge, Ziggurat

OneDraw == {"bernoulli", "binomial", "categorical", "exponential", "laplace",
            "logistic", "triangular", "uniform"}
NormalBased == {"gaussian", "lognormal", "cauchy"}
GammaBased == {"gamma", "beta", "pert"}
Third == NRat(1, 3)

\* Marsaglia and Tsang's transformation with a shape of at least one: the
\* candidate d v, v = (1 + x / sqrt(9 d))^3, is accepted iff
\* ln u < x^2 / 2 + d (1 - v + ln v).
RECURSIVE GammaBig(_, _, _, _)
RECURSIVE GammaAccept(_, _, _, _, _, _)
GammaBig(k, w, i, path) ==
  LET d == NSub(k, Third)
      c == NDiv(Third, NSqrt(d))
      Go(o) == LET t == NAdd(One, NMul(c, o.z))
                   tiny == Pow2(-40)
               IN  (IF NLt(t, tiny) THEN GammaBig(k, w, o.n, Append(o.path, "v<=0")) ELSE {})
                   \cup (IF NLt(NNeg(tiny), t) /\ t[1] > 0
                         THEN GammaAccept(k, w, o.n, o.path, o.z, NMul(t, Sq(t))) ELSE {})
  IN  UNION {Go(o) : o \in Normal(w, i, path)}
Root3(v) == NMin(One, Exp(NDiv(Ln(v), I(3))))
GammaAccept(k, w, i, path, x, v) ==
  IF ~IsRead(w, i) THEN {}
  ELSE LET u == UOf(w, i)
           d == NSub(k, Third)
           \* what the rounding of 1 + c x costs, relative (v is its cube)
           loss == NAdd(One, NDiv(One, Root3(v)))
           Done(p) == {[z |-> NMul(d, v), n |-> i + 1, path |-> Append(path, p), m |-> loss]}
       IN  IF u = Zero THEN Done("u=0") \cup GammaAccept(k, w, i + 1, Append(path, "u=0"), x, v)
           ELSE LET rhs == NAdd(NMul(Half, Sq(x)), NMul(d, NAdd(NSub(One, v), Ln(v))))
                    gap == NSub(rhs, Ln(u))
                    e == NMul(Fuzz, NAdd(One, NMul(d, NAdd(loss, v))))
                IN  (IF NLt(NNeg(e), gap)
                     THEN Done(IF NLt(u, NSub(One, NMul(NRat(331, 10000), Sq(Sq(x))))) THEN "squeeze" ELSE "log+")
                     ELSE {})
                    \cup (IF NLt(gap, e) THEN GammaBig(k, w, i + 1, Append(path, "log-")) ELSE {})
\* Any shape: a smaller one is boosted by u^(1/k); u = 0 may be read anew.
RECURSIVE Boost(_, _, _)
Boost(k, w, o) ==
  IF ~IsRead(w, o.n) THEN {}
  ELSE LET u == UOf(w, o.n)
           Done(z, p) == [z |-> z, n |-> o.n + 1, path |-> Append(o.path, p), m |-> o.m]
       IN  IF u = Zero THEN {Done(Zero, "boost0")} \cup Boost(k, w, Done(o.z, "u=0"))
           ELSE {Done(NMul(o.z, Exp(NDiv(Ln(u), k))), "boost")}
GammaAny(k, w, i, path) ==
  IF NLe(One, k) THEN GammaBig(k, w, i, path)
  ELSE UNION {Boost(k, w, o) : o \in GammaBig(NAdd(One, k), w, i, path)}
-----------------------------------------------------------------------------
\* values below the normal doubles may be lost
DMin == Pow2(-1021)
NearTo(r, v, m, bits) == IsNum(r) /\ NLe(NAbs(NSub(r, v)), NAdd(NMul(m, Pow2(bits)), DMin))
Huge == Pow2(1020)
SameSign(r, v) == (r[1] > 0) = (v[1] > 0)

\* loss of the boost u^(1/k), relative
BoostMag(k, w) == IF NLe(One, k) THEN One
                  ELSE NAdd(One, NDiv(I(60), k))
\* outcomes of two gammas in turn, as x / (x + y)
Ratio(al, be, w) ==
  UNION {{[z |-> IF NAdd(x.z, y.z) = Zero THEN NaN ELSE NDiv(x.z, NAdd(x.z, y.z)),
           n |-> y.n, path |-> x.path \o y.path, m |-> NAdd(x.m, y.m)] : y \in GammaAny(be, w, x.n, <<>>)}
         : x \in GammaAny(al, w, 1, <<>>)}
\* the runs of a draw that consume w entirely
Whole(S, w) == {o \in S : o.n = Len(w) + 1}

NormalRuns(o, w) ==
  IF o.fam = "cauchy"
  THEN UNION {{[z |-> <<x.z, y.z>>, n |-> y.n, path |-> x.path \o y.path] : y \in Normal(w, x.n, <<>>)}
              : x \in Normal(w, 1, <<>>)}
  ELSE Normal(w, 1, <<>>)
NormalAgrees(o, z, r) ==
  LET a == o.a IN
  CASE o.fam = "gaussian" -> NearTo(r, NAdd(a[1], NMul(a[2], z)), NAdd(NAbs(a[1]), NAbs(NMul(a[2], z))), -30)
    [] o.fam = "lognormal" ->
         LET t == NAdd(a[1], NMul(a[2], z))
             v == Exp(t)
         IN  IF NLt(Huge, v) THEN r = PosInf \/ (IsNum(r) /\ NLt(Pow2(1000), r))
             ELSE NearTo(r, v, NMul(v, Sum(<<One, NAbs(a[1]), NAbs(NMul(a[2], z))>>)), -30)
    [] o.fam = "cauchy" ->
         LET b == NAbs(z[2])
             v == NMul(a[2], NDiv(z[1], NAdd(b, Pow2(-1022))))
         IN  IF NLt(Huge, NAbs(v)) THEN (r \in {PosInf, NegInf} \/ (IsNum(r) /\ NLt(Pow2(1000), NAbs(r)))) /\ SameSign(r, v)
             ELSE NearTo(r, NAdd(a[1], v), NAdd(NAbs(a[1]), NAbs(v)), -30)
GammaRuns(o, w) ==
  IF o.fam = "gamma" THEN GammaAny(o.a[1], w, 1, <<>>)
  ELSE LET b == AsBeta(o) IN Ratio(b[1], b[2], w)
GammaAgrees(o, x, r, w) ==
  LET a == o.a
      z == x.z
  IN
  IF o.fam = "gamma"
  THEN NearTo(r, NMul(a[2], z), NMul(NMul(a[2], z), NAdd(x.m, BoostMag(a[1], w))), -30)
  ELSE LET b == AsBeta(o)
           v == NAdd(b[3], NMul(NSub(b[4], b[3]), z))
           m0 == Sum(<<NAbs(b[3]), NMul(NSub(b[4], b[3]), z)>>)
           m == NMul(m0, Sum(<<x.m, BoostMag(b[1], w), BoostMag(b[2], w)>>))
       IN  IF z = NaN THEN FALSE
           ELSE NearTo(r, v, m, -29)
RunsOf(o, w) == Whole(IF o.fam \in NormalBased THEN NormalRuns(o, w) ELSE GammaRuns(o, w), w)
Agrees(o, x, r, w) == IF o.fam \in NormalBased THEN NormalAgrees(o, x.z, r) ELSE GammaAgrees(o, x, r, w)

PathText(p) == IF Len(p) = 0 THEN "" ELSE p[1] \o (IF Len(p) > 1 THEN "," \o p[2] ELSE "")
                                          \o (IF Len(p) > 2 THEN ".." ELSE "")
JudgeRun(o, w, r) ==
  LET runs == RunsOf(o, w)
      good == {x \in runs : Agrees(o, x, r, w)}
  IN  IF good # {} THEN Verdict(TRUE, -30, PathText((CHOOSE x \in good : TRUE).path))
      ELSE Verdict(FALSE, Off, IF runs = {} THEN "reads" ELSE "value")

\* one uniform read u: Q(u), or Q(1 - u) when flip
JudgeOneDraw(o, w, r, flip) ==
  IF Len(w) # 1 THEN Verdict(FALSE, Off, "reads")
  ELSE LET u == UOf(w, 1)
           p == IF flip THEN NSub(One, u) ELSE u
           pc == IF flip THEN u ELSE NSub(One, u)
       IN  IF o.fam \notin Discrete THEN JudgeQuantile(o, p, pc, r)
           ELSE \* ties have probability zero and may go either way
                LET e == NAdd(DiscEps(o, p, pc), Pow2(-62))
                    ok == AtLeast(o, r, p, pc, e) /\ Before(o, PrevOutcome(o, r), p, pc, e)
                    near == o.fam = "binomial" /\ NormalApprox(o) /\
                            AtLeast(o, NAdd(r, One), p, pc, e) /\ Before(o, NSub(r, Two), p, pc, e)
                    beyond == o.fam = "binomial" /\ NormalApprox(o) /\ NLt(NMin(p, pc), ApproxReach)
                IN  IF ~IsOutcome(o, r) THEN Verdict(FALSE, Off, "out")
                    ELSE IF beyond THEN Verdict(TRUE, 2, "beyond")
                    ELSE IF p = Zero \/ pc = Zero THEN Verdict(TRUE, Exactly, "end")
                    ELSE IF ~ok /\ NewtonCase(o) /\ Nearest(o, r, p, pc) THEN Verdict(FALSE, Off, "nearest")
                    ELSE Verdict(ok \/ near, IF ok THEN Exactly ELSE IF near THEN 1 ELSE Off, PClass(p))

\* the closure of the support
InSupport(o, r) ==
  IF r = NaN THEN FALSE
  ELSE IF o.fam \in Discrete THEN IsOutcome(o, r)
  ELSE XLe(SupLo(o), r) /\ XLe(r, SupHi(o))
=============================================================================
