----------------------------- MODULE MCRelations -----------------------------
(***************************************************************************)
(* That the relations are theorems of the laws: over a grid of related     *)
(* pairs, what Relations expects of the partner is what Dist says of it,   *)
(* for every kind of query; and an answer that deviates is refused.        *)
(***************************************************************************)
EXTENDS Relations
CONSTANTS Rich
O(f, a) == [fam |-> f, a |-> a]
q(x, y) == NRat(x, y)
Bn(p) == O("bernoulli", <<p, NSub(One, p)>>)
Bi(n, p) == O("binomial", <<I(n), p, NSub(One, p)>>)
Locs == IF Rich THEN {Zero, q(-5, 4), q(7, 2)} ELSE {q(-5, 4), Zero}
Widths == IF Rich THEN {q(1, 4), One, I(6)} ELSE {q(3, 4), I(2)}
Parts == IF Rich THEN {q(1, 8), Half, q(13, 16)} ELSE {q(1, 4), q(5, 8)}
Shapes == IF Rich THEN {Half, One, q(9, 4), I(7)} ELSE {Half, q(9, 4)}
Maps == IF Rich THEN {<<Two, q(-3, 2)>>, <<q(1, 8), I(5)>>} ELSE {<<Two, q(-3, 2)>>}
Rel(o1, kind, a, o2) == [o1 |-> o1, k |-> kind, a |-> a, o2 |-> o2]
At(a, w, m) == NAdd(a, NMul(w, m))
Same ==
  {Rel(O("uniform", <<a, NAdd(a, w)>>), "same", <<>>, O("beta", <<One, One, a, NAdd(a, w)>>)) : a \in Locs, w \in Widths}
  \cup {Rel(O("exponential", <<NDiv(One, w)>>), "same", <<>>, O("gamma", <<One, w>>)) : w \in Widths}
  \cup {Rel(O("pert", <<a, At(a, w, m), NAdd(a, w)>>), "same", <<>>,
          O("beta", <<NAdd(One, NMul(I(4), m)), NSub(I(5), NMul(I(4), m)), a, NAdd(a, w)>>)) : a \in Locs, w \in Widths, m \in Parts}
  \cup {Rel(Bn(m), "same", <<>>, Bi(1, m)) : m \in Parts}
  \cup {Rel(Bn(m), "same", <<>>, O("categorical", <<NSub(One, m), m>>)) : m \in Parts}
Loc == {"cauchy", "gaussian", "laplace", "logistic"}
Fam3(f, a, w, m) == CASE f = "uniform" -> <<a, NAdd(a, w)>>
                      [] f = "triangular" -> <<a, NAdd(a, w), At(a, w, m)>>
                      [] f = "pert" -> <<a, At(a, w, m), NAdd(a, w)>>
Affs ==
  {Rel(O(f, <<a, w>>), "affine", t, O(f, <<NAdd(NMul(t[1], a), t[2]), NMul(t[1], w)>>)) : f \in Loc, a \in Locs, w \in Widths, t \in Maps}
  \cup {Rel(O(f, Fam3(f, a, w, m)), "affine", t, O(f, Fam3(f, NAdd(NMul(t[1], a), t[2]), NMul(t[1], w), m)))
         : f \in {"uniform", "triangular", "pert"}, a \in Locs, w \in Widths, m \in Parts, t \in Maps}
  \cup {Rel(O("beta", <<x, y, a, NAdd(a, w)>>), "affine", t,
          O("beta", <<x, y, NAdd(NMul(t[1], a), t[2]), NAdd(NMul(t[1], NAdd(a, w)), t[2])>>)) : x \in Shapes, y \in Shapes, a \in Locs, w \in Widths, t \in Maps}
  \cup {Rel(O("gamma", <<x, w>>), "affine", <<t[1], Zero>>, O("gamma", <<x, NMul(w, t[1])>>)) : x \in Shapes, w \in Widths, t \in Maps}
  \cup {Rel(O("exponential", <<w>>), "affine", <<t[1], Zero>>, O("exponential", <<NDiv(w, t[1])>>)) : w \in Widths, t \in Maps}
Turn(f, a, w, m, c) == CASE f = "uniform" -> <<NSub(NSub(c, a), w), NSub(c, a)>>
                         [] f = "triangular" -> <<NSub(NSub(c, a), w), NSub(c, a), NSub(c, At(a, w, m))>>
                         [] f = "pert" -> <<NSub(NSub(c, a), w), NSub(c, At(a, w, m)), NSub(c, a)>>
Mirrors ==
  {Rel(O(f, <<a, w>>), "mirror", <<q(3, 2)>>, O(f, <<NSub(q(3, 2), a), w>>)) : f \in Loc, a \in Locs, w \in Widths}
  \cup {Rel(O(f, Fam3(f, a, w, m)), "mirror", <<q(3, 2)>>, O(f, Turn(f, a, w, m, q(3, 2))))
         : f \in {"uniform", "triangular", "pert"}, a \in Locs, w \in Widths, m \in Parts}
  \cup {Rel(O("beta", <<x, y, a, NAdd(a, w)>>), "mirror", <<q(3, 2)>>, O("beta", <<y, x, NSub(NSub(q(3, 2), a), w), NSub(q(3, 2), a)>>))
         : x \in Shapes, y \in Shapes, a \in Locs, w \in Widths}
Counts ==
  {Rel(Bi(n, m), "dmirror", <<I(n)>>, Bi(n, NSub(One, m))) : n \in {1, 2, 5}, m \in Parts}
  \cup {Rel(O("categorical", w), "dmirror", <<I(Len(w) - 1)>>, O("categorical", Rev(w)))
         : w \in {<<q(1, 4), Half, q(1, 4)>>, <<q(1, 8), Half, Zero, q(3, 8)>>, <<Half, Zero, q(1, 4), q(1, 8), q(1, 8)>>}}
Exps == {Rel(O("gaussian", <<a, w>>), "exp", <<>>, O("lognormal", <<a, w>>)) : a \in Locs, w \in Widths}
Pairs == Same \cup Affs \cup Mirrors \cup Counts \cup Exps

\* where an object is asked
Wide(o) == CASE o.fam \in {"uniform", "triangular"} -> NSub(o.a[2], o.a[1])
              [] o.fam = "pert" -> NSub(o.a[3], o.a[1])
              [] o.fam = "beta" -> NSub(o.a[4], o.a[3])
              [] o.fam = "exponential" -> NDiv(One, o.a[1])
              [] OTHER -> o.a[2]
Points(o) == IF o.fam \in Discrete THEN {I(i) : i \in 0..NFloor(SupHi(o))}
             ELSE LET lo == IF SupLo(o) = NegInf THEN o.a[1] ELSE SupLo(o)
                  IN  {At(lo, Wide(o), m) : m \in {q(1, 16), q(3, 8), q(7, 8)} \cup (IF SupLo(o) = NegInf THEN {q(-9, 2), I(3)} ELSE {})}
\* <<query, answer>> of an object, by its law; quantiles at attained values
Law(o) ==
  LET pts == Points(o)
      un == {"mean", "var", "sd", "skew", "kurt", "ent"}
  IN  {<<<<"cdf", x>>, Lower(o, x)>> : x \in pts}
      \cup (IF o.fam \in Continuous THEN {<<<<"pdf", x>>, Density(o, x)>> : x \in pts} \cup {<<<<"inv", Lower(o, x)>>, x>> : x \in pts}
            ELSE {<<<<"pmf", x>>, Mass(o, x)>> : x \in pts})
      \cup (IF o.fam = "cauchy" THEN {<<<<"ent", Zero>>, Entropy(o)[1]>>} ELSE {<<<<op, Zero>>, Raw(o, op)[1]>> : op \in un})
      \cup (IF o.fam = "uniform" THEN {} ELSE {<<<<"modes", Zero>>, Modes(o)>>})
Close(x, y, m) == x = y \/ (IsNum(x) /\ IsNum(y) /\ NLe(NAbs(NSub(x, y)), NMul(m, Pow2(-75))))
\* what the law of o says to k; TRUE iff v is that
Says(o, k, v) ==
  LET op == k[1] x == k[2] IN
  CASE op = "cdf" -> Close(Lower(o, x), v, One)
    [] op = "pdf" -> Close(Density(o, x), v, NAdd(One, NAbs(v)))
    [] op = "pmf" -> Close(Mass(o, x), v, One)
    [] op = "inv" -> Close(Lower(o, v), x, One)
    [] op = "modes" -> LET m == Modes(o) IN Len(m) = Len(v) /\ \A i \in 1..Len(v) : Close(m[i], v[i], NAdd(One, NAbs(v[i])))
    [] OTHER -> LET m == Raw(o, op) IN Close(m[1], v, NAdd(One, m[2]))
VARIABLES pair, ask
RInit == SysInit /\ pair \in Pairs /\ ask = <<>>
RNext == UNCHANGED sys /\ ask = <<>> /\ \E k \in Law(pair.o1) : ask' = k /\ UNCHANGED pair
RView == <<pair, ask>>
Ex == LET k == ask[1] IN
      Expect(pair, k, ask[2], pair.o1,
             IF pair.k = "exp" /\ k[1] \in {"cdf", "pdf"} THEN {<<k[1], Exp(k[2])>>} ELSE {})
Shifted(v) == IF IsNum(v) THEN NAdd(v, NMul(Pow2(-8), NAdd(One, NAbs(v)))) ELSE Zero
Theorem == ask # <<>> /\ Comparable(pair.o1, pair.o2, ask[1][1]) =>
  LET x == Ex IN
  x # None =>
    /\ Says(pair.o2, x[1], x[2])
    /\ CloseAnswers(pair, pair.o1, pair.o2, x[1], x[2], x[2])
    \* another answer is refused
    /\ x[1][1] # "modes" => ~CloseAnswers(pair, pair.o1, pair.o2, x[1], x[2], Shifted(x[2]))
    /\ ~CloseAnswers(pair, pair.o1, pair.o2, x[1], x[2], IF x[1][1] = "modes" THEN Append(x[2], Zero) ELSE NaN)
=============================================================================
