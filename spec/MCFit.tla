-------------------------------- MODULE MCFit --------------------------------
(***************************************************************************)
(* The fit as a state machine that reads one observation at a time and     *)
(* keeps count, mean and sum of squared deviations: at every length this   *)
(* is FitMean and FitDev of ProbTrace, which are the mean and the root of  *)
(* half the mean squared difference of pairs, whatever the order, and move *)
(* with the observations.  Exports the sequences.                          *)
(***************************************************************************)
EXTENDS ProbTrace
CONSTANTS Values, Longest
Quarters == {-6, -1, 0, 2, 3}
VARIABLES xs, mean, squares
mvars == <<xs, mean, squares, vars>>
Ob(i) == NRat(i, 4)
MInit == Init /\ xs = <<>> /\ mean = Zero /\ squares = Zero
MNext == /\ Len(xs) < Longest
         /\ \E i \in Values :
              LET n == Len(xs) + 1
                  d == NSub(Ob(i), mean)
              IN  /\ xs' = Append(xs, Ob(i))
                  /\ mean' = NAdd(mean, NDiv(d, I(n)))
                  /\ squares' = NAdd(squares, NMul(d, NSub(Ob(i), mean')))
         /\ UNCHANGED vars
MView == xs
N == Len(xs)
Close(x, y) == NLe(NAbs(NSub(x, y)), Pow2(-90))
Running == N >= 1 => Close(mean, FitMean(xs))
Spread == N >= 2 => Close(NDiv(squares, I(N - 1)), Sq(FitDev(xs)))
Pairs == N >= 2 =>
  Close(Sq(FitDev(xs)), NDiv(Sum([i \in 1..N |-> Sum([j \in 1..N |-> Sq(NSub(xs[i], xs[j]))])]), I(2 * N * (N - 1))))
Back == [i \in 1..N |-> xs[N + 1 - i]]
Turn == IF N = 0 THEN xs ELSE Tail(xs) \o <<xs[1]>>
Order == N >= 2 => \A y \in {Back, Turn} : Close(FitMean(y), FitMean(xs)) /\ Close(FitDev(y), FitDev(xs))
Moves == N >= 2 => LET y == [i \in 1..N |-> NSub(I(7), NMul(I(3), xs[i]))]
                   IN  Close(FitMean(y), NSub(I(7), NMul(I(3), FitMean(xs)))) /\ Close(FitDev(y), NMul(I(3), FitDev(xs)))
\* the verdict takes the fit and nothing beside it
\* repetition: the mean stays, the squares add up
Over == N >= 1 => LET y == xs \o xs \o xs IN Close(FitMean(y), FitMean(xs)) /\ Close(Sq(FitDev(y)), Sq(FitDevOf(xs, 3)))
Flat == FitDev(xs) = Zero
Event(m, s) == [e |-> "fit", k |-> 1, o |-> "ok", a |-> xs, r |-> <<m, s>>]
Good(m, s) == \A i \in 1..2 : FitFindings(Event(m, s))[i].v.ok
Off1(x) == NAdd(x, NMul(NMax(NAbs(x), One), Pow2(-30)))
Verdicts == N >= 2 /\ ~Flat =>
  /\ Good(FitMean(xs), FitDev(xs))
  /\ ~Good(Off1(FitMean(xs)), FitDev(xs)) /\ ~Good(FitMean(xs), Off1(FitDev(xs)))
  /\ ~Good(NaN, FitDev(xs)) /\ ~Good(FitMean(xs), PosInf)
  \* the population's deviation is not it
  /\ ~Good(FitMean(xs), NSqrt(NDiv(squares, I(N))))
ASSUME TLCSet(1, <<>>)
Note == N >= 2 /\ ~Flat => TLCSet(1, Append(TLCGet(1), [x |-> xs]))
Post == ndJsonSerialize(IOEnv.EXPORT, FlattenSeq(TLCGet("all")[1]))
=============================================================================
