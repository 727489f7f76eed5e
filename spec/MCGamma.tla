------------------------------- MODULE MCGamma -------------------------------
(***************************************************************************)
(* The sampler of gammas (Marsaglia and Tsang): that its acceptance rule   *)
(* turns a normal into a gamma, that its squeeze is implied by the rule,   *)
(* that the boost of small shapes keeps the law; and its runs as a state   *)
(* machine which picks its words: normals of either sign up to those that  *)
(* are refused outright, uniforms on both sides of the squeeze and of the  *)
(* rule, up to two rejections, boosts.  Each run is the only one that      *)
(* Sampler admits for its words, and is exported as a script of words.     *)
(***************************************************************************)
EXTENDS Sampler, TLC, Json, IOUtils
CONSTANTS Shapes, Rejections
Few == {<<1, 2>>, <<1, 1>>, <<3, 2>>, <<5, 1>>, <<6000, 1>>}
Many == {<<1, 64>>, <<1, 4>>, <<1, 2>>, <<63, 64>>, <<1, 1>>, <<65, 64>>, <<3, 2>>, <<2, 1>>, <<5, 1>>, <<20, 1>>, <<500, 1>>, <<6000, 1>>, <<40000, 1>>}

Near(x, y, b) == NLe(NAbs(NSub(x, y)), Pow2(b))
Cube(x) == NMul(x, Sq(x))
DOf(k) == NSub(k, Third)
COf(k) == NDiv(One, NSqrt(NMul(I(9), DOf(k))))
TOf(k, x) == NAdd(One, NMul(COf(k), x))
LnAccept(k, x) == LET d == DOf(k) v == Cube(TOf(k, x))
                  IN  NAdd(NMul(Half, Sq(x)), NAdd(NSub(d, NMul(d, v)), NMul(d, Ln(v))))
Squeeze(x) == NSub(One, NMul(NRat(331, 10000), Sq(Sq(x))))
Big == {NRat(s[1], s[2]) : s \in {t \in Many : t[1] >= t[2]} \cup {<<t[1] + t[2], t[2]>> : t \in Many}}
Grid == {NRat(i, 4) : i \in -24..24}
Possible(k, x) == NLt(Pow2(-20), TOf(k, x))
\* the rule is a probability, 1 at x = 0 only, and the squeeze is below it
ASSUME \A k \in Big, x \in Grid : Possible(k, x) =>
         /\ NLe(LnAccept(k, x), Pow2(-90))
         /\ Squeeze(x)[1] > 0 => NLe(Ln(Squeeze(x)), NAdd(LnAccept(k, x), Pow2(-90)))
\* accepted normals have the density of the gamma: acceptance times normal
\* density is proportional to the gamma density at d t^3 times 3 c d t^2
LnGammaDensityAt(k, y) == NSub(NSub(NMul(NSub(k, One), Ln(y)), y), LnGamma(k))
LnRatio(k, x) == LET t == TOf(k, x)
                     y == NMul(DOf(k), Cube(t))
                 IN  NSub(NSub(LnAccept(k, x), NMul(Half, Sq(x))),
                          NAdd(LnGammaDensityAt(k, y), NAdd(Ln(NMul(I(3), NMul(COf(k), DOf(k)))), NMul(Two, Ln(t)))))
ASSUME \A k \in Big : \A x \in Grid : Possible(k, x) => Near(LnRatio(k, x), LnRatio(k, Zero), -75)
\* the boost: all moments, E G(k + 1)^n  k / (k + n) = E G(k)^n
LnRising(k, n) == NSub(LnGamma(NAdd(k, I(n))), LnGamma(k))
ASSUME \A s \in Many, n \in 1..6 :
         LET k == NRat(s[1], s[2])
         IN  Near(NAdd(LnRising(NAdd(One, k), n), NSub(Ln(k), Ln(NAdd(k, I(n))))), LnRising(k, n), -75)
-----------------------------------------------------------------------------
VARIABLES st, shape, w, x, path, g, left
vars == <<st, shape, w, x, path, g, left>>
K0 == NRat(shape[1], shape[2])
K == IF NLt(K0, One) THEN NAdd(One, K0) ELSE K0
\* the word of a normal next to z: the base layer, whose abscissae reach past R
WordOf(j, s) == <<"u", <<(127 + 128 * s + 256 * (j % 128)), (j \div 128) % 32768, j \div 4194304, 0, 0>>>>
Abs16(z) == NFloor(NDiv(NAbs(z), Width(127)))
Pow16(z) == LET j == Abs16(z) IN IF j < Inside(127) THEN j ELSE Inside(127) - 3
\* -1 / c is where v vanishes
Vanish == NNeg(NDiv(One, COf(K)))
NormalsOf == {Zero, NRat(1, 3), NRat(-3, 5), NRat(3, 2), NRat(-8, 5), NRat(5, 2), NRat(17, 5)}
             \cup {NMax(z, NRat(-17, 5)) : z \in {NSub(Vanish, Pow2(-10)), NAdd(Vanish, Pow2(-10)), NAdd(Vanish, NRat(1, 4))}}
Clip(u) == NMax(Pow2(-60), NMin(u, NSub(One, Pow2(-53))))
\* farther from the rule than its rounding
Size(z) == NAdd(One, NMul(DOf(K), NAdd(NAdd(One, NDiv(One, TOf(K, z))), Cube(TOf(K, z)))))
Step(z) == NMul(Pow2(-28), Size(z))
ThrOf(z) == Exp(LnAccept(K, z))
UOfs(z) == {Clip(u) : u \in {Squeeze(z), NSub(Squeeze(z), Step(z)), NAdd(Squeeze(z), Step(z)), NSub(ThrOf(z), Step(z)), NAdd(ThrOf(z), Step(z)),
                             Pow2(-53), Half, NSub(One, Pow2(-53))}}
BoostU == {Pow2(-53), NRat(1, 5), NSub(One, Pow2(-53))}

Init == /\ st = "start" /\ shape \in Shapes /\ w = <<>> /\ x = Zero /\ path = <<>> /\ g = Zero /\ left = Rejections
Pick == /\ st = "start"
        /\ \E z \in NormalsOf :
             LET j == Pow16(z)
                 s == IF z[1] < 0 THEN 0 ELSE 1
                 y == NMul(I(j), Width(127))
                 z1 == IF s = 1 THEN y ELSE NNeg(y)
             IN  /\ x' = z1 /\ w' = Append(w, WordOf(j, s))
                 /\ IF TOf(K, z1)[1] <= 0 THEN left > 0 /\ st' = "start" /\ left' = left - 1 /\ path' = path \o <<"base", "v<=0">>
                    ELSE st' = "accept" /\ left' = left /\ path' = Append(path, "base")
        /\ UNCHANGED <<shape, g>>
AcceptStep ==
  /\ st = "accept"
  /\ \E u \in UOfs(x) :
       LET gap == NSub(LnAccept(K, x), Ln(u))
       IN  /\ NLt(NMul(Pow2(-32), Size(x)), NAbs(gap))
           /\ w' = Append(w, <<"f", u>>)
           /\ IF gap[1] > 0
              THEN /\ path' = Append(path, IF NLt(u, Squeeze(x)) THEN "squeeze" ELSE "log+")
                   /\ g' = NMul(DOf(K), Cube(TOf(K, x)))
                   /\ st' = (IF NLt(K0, One) THEN "boost" ELSE "done") /\ left' = left
              ELSE left > 0 /\ left' = left - 1 /\ st' = "start" /\ path' = Append(path, "log-") /\ g' = g
  /\ UNCHANGED <<shape, x>>
BoostStep == /\ st = "boost"
             /\ \E u \in BoostU : w' = Append(w, <<"f", u>>) /\ g' = NMul(g, Exp(NDiv(Ln(u), K0)))
             /\ st' = "done" /\ path' = Append(path, "boost") /\ UNCHANGED <<shape, x, left>>
Next == Pick \/ AcceptStep \/ BoostStep
View == <<shape, w>>
Ob == [fam |-> "gamma", a |-> <<K0, Two>>]
Refines == st = "done" =>
  LET S == {o \in GammaAny(K0, w, 1, <<>>) : o.n = Len(w) + 1}
  IN  /\ Cardinality(S) = 1
      /\ \A o \in S : NLe(NAbs(NSub(o.z, g)), NMul(g, Pow2(-60))) /\ o.path = path
      /\ JudgeRun(Ob, w, NMul(Two, g)).ok
      \* nothing else would do: another value, a run cut short or drawn out
      /\ NLt(Pow2(-1000), g) => ~JudgeRun(Ob, w, NMul(NMul(Two, g), NAdd(One, Pow2(-5)))).ok
      /\ ~JudgeRun(Ob, SubSeq(w, 1, Len(w) - 1), NMul(Two, g)).ok
      /\ ~JudgeRun(Ob, Append(w, <<"f", Half>>), NMul(Two, g)).ok
Prefix == st # "done" => {o \in GammaAny(K0, w, 1, <<>>) : o.n = Len(w) + 1} = {}
ASSUME TLCSet(1, <<>>)
Word64(r) == IF r[1] = "u" THEN WordNum(r[2]) ELSE Floor(NMul(r[2], WordMax))
Note == st = "done" => TLCSet(1, Append(TLCGet(1), [k |-> shape, w |-> [i \in 1..Len(w) |-> Word64(w[i])], path |-> path]))
Post == ndJsonSerialize(IOEnv.EXPORT, FlattenSeq(TLCGet("all")[1]))
=============================================================================
