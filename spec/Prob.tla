-------------------------------- MODULE Prob --------------------------------
(***************************************************************************)
(* The library as a system: clients construct distribution objects, copy   *)
(* them, query them, draw from them with a source of random words, and     *)
(* open endless streams of draws.  The state that matters to a client:     *)
(*                                                                         *)
(*   objs     handle -> [o, c, key]: the distribution an object denotes,   *)
(*            how it was constructed, and its parameters as given          *)
(*   tapes    source handle -> [id, pos]: which word sequence it delivers, *)
(*            and how many words it has delivered                          *)
(*   streams  stream -> [h, s]: the object and source it draws from        *)
(*   memo     key -> (<<op, x>> -> answer): every answer given so far      *)
(*   ladder   <<key, cdf or inv>> -> the answered arguments, in order, with  *)
(*            the answers                                                  *)
(*   drawn    <<key, tape id, position>> -> <<sample, words read>>         *)
(*   orient   family -> which end of the uniform its one-draw sampler uses *)
(*                                                                         *)
(* An action is one call.  Its answer is constrained by the parameters     *)
(* (Judge, Sampler), by earlier answers for the same parameters (an object *)
(* has no other state), and for streams by what direct draws yield.        *)
(***************************************************************************)
EXTENDS Sampler

VARIABLES objs, tapes, streams, memo, ladder, drawn, orient
sys == <<objs, tapes, streams, memo, ladder, drawn, orient>>

SysInit == /\ objs = <<>> /\ tapes = <<>> /\ streams = <<>>
           /\ memo = <<>> /\ ladder = <<>> /\ drawn = <<>> /\ orient = <<>>

Get(f, k, default) == IF k \in DOMAIN f THEN f[k] ELSE default
Put(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE (k :> v) @@ f
Key(h) == objs[h].key
Obj(h) == objs[h].o
Answers(h) == Get(memo, Key(h), <<>>)
-----------------------------------------------------------------------------
(* What earlier answers say about a new one.                                *)

\* bit for bit the same as before
Repeats(h, op, x, r) == LET m == Answers(h) IN <<op, x>> \in DOMAIN m => m[<<op, x>>] = r
\* the same where the definition of an answer does not involve its argument
Asked(h, op) == {k \in DOMAIN Answers(h) : k[1] = op}

\* distribution functions never decrease (beyond rounding), and those of
\* discrete families do not change between outcomes; it is enough to look at
\* the nearest earlier arguments on either side
Ladder(h, op) == Get(ladder, <<Key(h), op>>, <<>>)
RECURSIVE Slot(_, _, _, _)
Slot(s, x, lo, hi) ==          \* how many of s lie below x
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi) \div 2
       IN  IF XLt(s[mid + 1][1], x) THEN Slot(s, x, mid + 1, hi) ELSE Slot(s, x, lo, mid)
Below(s, x) == Slot(s, x, 0, Len(s))
Climb(s, x, r) ==
  LET i == Below(s, x)
  IN  IF i < Len(s) /\ s[i + 1][1] = x THEN s ELSE SubSeq(s, 1, i) \o <<<<x, r>>>> \o SubSeq(s, i + 1, Len(s))

MonoSlack(o, x, v) == NMul(NAdd(CdfMag(o, x, v), Pow2(-80)), Pow2(-46))
CdfMonotone(h, x, r) ==
  LET o == Obj(h)
      s == Ladder(h, "cdf")
      i == Below(s, x)
      Step(y, v) == (o.fam \in Discrete /\ IsNum(x) /\ IsNum(y) /\ (x[1] < 0) = (y[1] < 0)
                     /\ Floor(x) = Floor(y)) => r = v
  IN  /\ i > 0 => LET y == s[i][1] v == s[i][2]
                  IN XLe(v, NAdd(r, IF IsNum(x) THEN MonoSlack(o, x, r) ELSE Zero)) /\ Step(y, v)
      /\ i < Len(s) => LET y == s[i + 1][1] v == s[i + 1][2]
                       IN XLe(r, NAdd(v, IF IsNum(y) THEN MonoSlack(o, y, v) ELSE Zero)) /\ Step(y, v)
\* so for quantiles, up to their precision
InvMonotone(h, p, r) ==
  LET o == Obj(h)
      s == Ladder(h, "inv")
      i == Below(s, p)
      Sl(v) == IF IsNum(v) THEN NAdd(NMul(Two, QStep(o)),
                 NMul(XMag(o, v), IF o.fam = "beta" THEN NAdd(Pow2(-20), QLoss(o)) ELSE Pow2(IF o.fam = "pert" THEN -36 ELSE -46))) ELSE Zero
      Upw(v) == IF IsNum(v) THEN NAdd(v, Sl(v)) ELSE v
  IN  QReach(o) =>
        /\ i > 0 => XLe(s[i][2], Upw(r))
        /\ i < Len(s) => XLe(r, Upw(s[i + 1][2]))

\* masses add up to the distribution function: once every mass up to an
\* outcome is known, a CDF answer there must be their sum
MassUpTo(h, n) ==        \* sum, or NaN when some mass is missing
  LET m == Answers(h)
      ks == [i \in 1..(n + 1) |-> <<"pmf", I(i - 1)>>]
  IN  IF \A i \in 1..(n + 1) : ks[i] \in DOMAIN m /\ IsNum(m[ks[i]])
      THEN Sum([i \in 1..(n + 1) |-> m[ks[i]]]) ELSE NaN
MassesAddUp(h, x, r) ==
  LET k == Floor(x)
      s == IF IsInteger(x) /\ x[1] >= 0 /\ NLe(x, I(400)) THEN MassUpTo(h, NFloor(k)) ELSE NaN
      m == NAdd(One, IF Obj(h).fam = "binomial" THEN LogSize(NAdd(Obj(h).a[1], One)) ELSE Zero)
  IN  s # NaN => NLe(NAbs(NSub(s, r)), NMul(m, Pow2(-40)))
\* the same without the recorded finding on 11
MassesAddUpEleven(h, x, r) ==
  LET o == Obj(h)
      k == NFloor(Floor(x))
      t == Sum([i \in 1..(k + 1) |-> LET j == I(i - 1) IN
                 NMul(Answers(h)[<<"pmf", j>>], Exp(NMul(I(0 - ElevenSign(o, j)), Eleven)))])
  IN  o.fam = "binomial" /\ NLe(NAbs(NSub(t, r)), NMul(NAdd(One, LogSize(NAdd(o.a[1], One))), Pow2(-40)))
MassSumKnown(h, x) == IsInteger(x) /\ x[1] >= 0 /\ NLe(x, I(400)) /\ MassUpTo(h, NFloor(Floor(x))) # NaN
-----------------------------------------------------------------------------
(* Actions.                                                                 *)
New(h, f, ctor, a) ==
  /\ objs' = Put(objs, h, [o |-> Object(f, ctor, a), c |-> ctor, key |-> <<f, ctor, a>>])
  /\ UNCHANGED <<tapes, streams, memo, ladder, drawn, orient>>
Copy(h, g) == objs' = Put(objs, g, objs[h]) /\ UNCHANGED <<tapes, streams, memo, ladder, drawn, orient>>
Remember(h, op, x, r) ==
  /\ memo' = Put(memo, Key(h), Put(Answers(h), <<op, x>>, r))
  /\ ladder' = IF op \in {"cdf", "inv"} /\ r # NaN
                THEN Put(ladder, <<Key(h), op>>, Climb(Ladder(h, op), x, r)) ELSE ladder
  /\ UNCHANGED <<objs, tapes, streams, drawn, orient>>
Source(s, id) ==
  /\ tapes' = Put(tapes, s, [id |-> id, pos |-> 0])
  /\ UNCHANGED <<objs, streams, memo, ladder, drawn, orient>>
Open(t, h, s) ==
  /\ streams' = Put(streams, t, [h |-> h, s |-> s])
  /\ UNCHANGED <<objs, tapes, memo, ladder, drawn, orient>>

\* a draw from tape id at position p is determined by the words from there on
DrawKey(h, id, p) == <<Key(h), id, p>>
DrawRepeats(h, id, p, r, n) == LET k == DrawKey(h, id, p)
                               IN k \in DOMAIN drawn => drawn[k] = <<r, n>>
DrawMemo(h, id, p, r, n) == Put(drawn, DrawKey(h, id, p), <<r, n>>)
Advance(s, n) == Put(tapes, s, [tapes[s] EXCEPT !.pos = @ + n])

\* The elements of a stream from position p: m elements, as
\* <<known, <<values>>, words read>>; known is FALSE when a direct draw at
\* some position has not been seen.
RECURSIVE Elements(_, _, _, _, _)
Elements(h, id, p, m, acc) ==
  IF m = 0 THEN acc
  ELSE LET k == DrawKey(h, id, p)
       IN  IF k \notin DOMAIN drawn THEN <<FALSE, acc[2], acc[3]>>
           ELSE LET d == drawn[k]
                IN Elements(h, id, p + d[2], m - 1, <<TRUE, Append(acc[2], d[1]), acc[3] + d[2]>>)
\* A run of k draws in a row is told by its last value and a digest of them all.
RunKey(h, id, p, k) == <<"run", Key(h), id, p, k>>
RunRepeats(h, id, p, k, r, n) == LET y == RunKey(h, id, p, k)
                                 IN y \in DOMAIN drawn => drawn[y] = <<r, n>>
RunMemo(h, id, p, k, r, n) == Put(drawn, RunKey(h, id, p, k), <<r, n>>)
LongRun == 1000
RunReturned(mode, r) == CASE mode \in {"bulk", "bulkloop"} -> r
                          [] mode = "count" -> <<>>
                          [] OTHER -> <<r[1]>>

\* How many elements a request consumes, and which of them it shows.  The
\* modes that begin with o open a stream of their own on the same object and
\* source, and use it up.
Consumed(mode, k) ==
  CASE mode \in {"next", "take", "fold", "last", "count", "otake", "orest", "bulk", "bulkloop"} -> k
    [] mode \in {"nth", "skip", "find", "zip", "all", "any", "position", "loop", "try", "while", "scan", "until", "onth", "ozip"} -> k + 1
    [] mode = "oskip" -> k + 2
    [] mode \in {"step", "filter", "ostep"} -> IF k = 0 THEN 0 ELSE 2 * k - 1
    [] mode = "peek" -> 1
    [] mode = "hint" -> 0
Returned(mode, k, v) ==
  CASE mode \in {"next", "take", "fold", "otake", "all", "any", "position", "loop", "try"} -> v
    [] mode \in {"nth", "skip", "find", "until", "onth"} -> <<v[k + 1]>>
    [] mode = "oskip" -> <<v[k + 1], v[k + 2]>>
    [] mode = "last" -> IF k = 0 THEN <<>> ELSE <<v[k]>>
    [] mode = "count" -> <<>>
    [] mode = "orest" -> SubSeq(v, 2, k)
    [] mode \in {"zip", "ozip", "while", "scan"} -> SubSeq(v, 1, k)
    [] mode \in {"step", "filter", "ostep"} -> [i \in 1..k |-> v[2 * i - 1]]
    [] mode = "peek" -> <<v[1], v[1]>>
=============================================================================
