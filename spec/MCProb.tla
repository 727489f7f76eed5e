------------------------------- MODULE MCProb -------------------------------
(***************************************************************************)
(* The system of Prob with everything numeric abstracted away: an answer   *)
(* is a token of the parameters and the question, a draw a token of the    *)
(* parameters and the place on the tape.  Two parameterisations, a copy of *)
(* the first, up to Streams streams, and a source that may be seeded anew. *)
(* Requests are carried out step by step, as iterators are (Carry), and    *)
(* the closed forms of Prob (Elements, Consumed, Returned) have to agree.  *)
(* Every history of Depth steps is exported as a schedule for the library. *)
(***************************************************************************)
EXTENDS Prob, Json, IOUtils
CONSTANTS Depth, Streams, Requests       \* Requests: set of <<mode, k>>

Few == {<<"next", 1>>, <<"nth", 1>>, <<"step", 2>>, <<"peek", 0>>, <<"zip", 1>>, <<"hint", 0>>}
Many == ({"next", "take", "nth", "skip", "step", "zip", "find", "fold"} \X {0, 1, 2, 3}) \cup {<<"peek", 0>>, <<"hint", 0>>}

More == ({"all", "position", "loop", "while", "until", "filter", "last", "count", "otake", "onth", "ozip", "oskip", "ostep", "orest"} \X {0, 2}) \cup {<<"next", 1>>}

VARIABLES hist, out, seen, bad
mvars == <<sys, hist, out, seen, bad>>

Handles == {1, 2, 3}
KeyOf(h) == IF h = 2 THEN "B" ELSE "A"
Src == 1
\* the words a draw reads differ from place to place
WordsAt(key, p) == 1 + ((p + (IF key = "A" THEN 0 ELSE 1)) % 2)
Val(key, p) == <<key, p>>

Init == /\ SysInit /\ hist = <<>> /\ out = <<>> /\ seen = <<>> /\ bad = {}
Ready == DOMAIN objs = Handles
\* both parameterisations and the copy, once
Setup == /\ ~Ready
         /\ objs' = [h \in Handles |-> [o |-> KeyOf(h), c |-> "new", key |-> KeyOf(h)]]
         /\ tapes' = (Src :> [id |-> 1, pos |-> 0])
         /\ UNCHANGED <<streams, memo, ladder, drawn, orient, hist, out, seen, bad>>

\* n draws of h in turn from position p: <<values, words, new drawn>>
RECURSIVE Carry(_, _, _, _)
Carry(h, p, n, acc) ==
  IF n = 0 THEN acc
  ELSE LET k == Key(h)
           dk == DrawKey(h, tapes[Src].id, p)
       IN  Carry(h, p + WordsAt(k, p), n - 1,
                 <<Append(acc[1], Val(k, p)), acc[2] + WordsAt(k, p), Put(acc[3], dk, <<Val(k, p), WordsAt(k, p)>>)>>)
Pulled(h, n) == Carry(h, tapes[Src].pos, n, <<<<>>, 0, drawn>>)

\* An iterator asked step by step.  Each adaptor is a little program on next.
\* State: <<values so far, elements pulled>>; the program says what to do.
RECURSIVE Program(_, _, _, _)
Program(mode, k, v, got) ==            \* v: all elements of the stream from here (enough of them)
  LET n == got[2]
      Pull == v[n + 1]
      Keep == <<Append(got[1], Pull), n + 1>>
      Drop == <<got[1], n + 1>>
  IN  CASE mode \in {"next", "take", "fold", "otake"} -> IF n = k THEN got ELSE Program(mode, k, v, Keep)
        [] mode \in {"nth", "skip", "onth"} -> IF n = k THEN Keep ELSE Program(mode, k, v, Drop)
        \* find the element numbered k by counting
        [] mode = "find" -> IF n = k THEN Keep ELSE Program(mode, k, v, Drop)
        \* first this stream is asked, then a list of k
        [] mode \in {"zip", "ozip"} -> IF n = k THEN Drop ELSE Program(mode, k, v, Keep)
        \* look at every element, up to and with the one numbered k
        [] mode \in {"all", "any", "position", "loop", "try"} -> IF n = k THEN Keep ELSE Program(mode, k, v, Keep)
        \* keep elements as long as fewer than k were seen; the next ends it
        [] mode \in {"while", "scan"} -> IF n = k THEN Drop ELSE Program(mode, k, v, Keep)
        \* drop elements as long as fewer than k were seen; the next is it
        [] mode = "until" -> IF n = k THEN Keep ELSE Program(mode, k, v, Drop)
        [] mode = "oskip" -> IF n < k THEN Program(mode, k, v, Drop) ELSE IF n = k THEN Program(mode, k, v, Keep) ELSE Keep
        \* each of k elements takes the place of the one before
        [] mode = "last" -> IF n = k THEN got ELSE Program(mode, k, v, <<<<Pull>>, n + 1>>)
        [] mode = "count" -> IF n = k THEN got ELSE Program(mode, k, v, Drop)
        \* k elements but the first
        [] mode = "orest" -> IF n = k THEN got ELSE Program(mode, k, v, IF n = 0 THEN Drop ELSE Keep)
        \* every other element, k of them
        [] mode \in {"step", "filter", "ostep"} -> IF Len(got[1]) = k THEN got
                            ELSE IF n % 2 = 0 THEN Program(mode, k, v, Keep) ELSE Program(mode, k, v, Drop)
        [] mode = "peek" -> <<<<v[1], v[1]>>, 1>>
        [] mode = "hint" -> got
MaxPull == 12
Lookahead(h) == Carry(h, tapes[Src].pos, MaxPull, <<<<>>, 0, drawn>>)[1]

Log(a) == hist' = Append(hist, a)
Deliver(h, vs) == seen' = seen \o [i \in 1..Len(vs) |-> <<Key(h), vs[i]>>]

DDraw(h) ==
  LET x == Pulled(h, 1) IN
  /\ tapes' = Advance(Src, x[2]) /\ drawn' = x[3]
  /\ Log(<<"d", h>>) /\ out' = x[1] /\ Deliver(h, x[1])
  /\ bad' = IF DrawRepeats(h, tapes[Src].id, tapes[Src].pos, x[1][1], x[2]) THEN bad ELSE bad \cup {"draw"}
  /\ UNCHANGED <<objs, streams, memo, ladder, orient>>
DOpen(h) ==
  LET t == Cardinality(DOMAIN streams) IN
  /\ t < Streams /\ Open(t, h, Src)
  /\ Log(<<"s", t, h>>) /\ UNCHANGED <<out, seen, bad>>
DRequest(t, mode, k) ==
  LET h == streams[t].h
      r == Program(mode, k, Lookahead(h), <<<<>>, 0>>)
      x == Pulled(h, r[2])
      want == Elements(h, tapes[Src].id, tapes[Src].pos, Consumed(mode, k), <<TRUE, <<>>, 0>>)
  IN
  /\ tapes' = Advance(Src, x[2]) /\ drawn' = x[3]
  /\ Log(<<"r", t, mode, k>>) /\ out' = r[1] /\ Deliver(h, x[1])
  \* the closed forms: as many elements, the same answer, and no other words
  /\ bad' = bad \cup (IF r[2] = Consumed(mode, k) THEN {} ELSE {"consumed"})
                \cup (IF mode = "hint" \/ r[1] = Returned(mode, k, x[1]) THEN {} ELSE {"returned"})
                \cup (IF ~want[1] \/ (want[2] = x[1] /\ want[3] = x[2]) THEN {} ELSE {"elements"})
  /\ UNCHANGED <<objs, streams, memo, ladder, orient>>
DReseed == /\ Source(Src, tapes[Src].id) /\ Log(<<"z">>) /\ seen' = <<>> /\ UNCHANGED <<out, bad>>
           /\ tapes[Src].pos > 0
DQuery(h) == LET r == Val(Key(h), 0 - 1) IN
  /\ Remember(h, "mean", Zero, r) /\ Log(<<"q", h>>)
  /\ bad' = IF Repeats(h, "mean", Zero, r) THEN bad ELSE bad \cup {"query"}
  /\ UNCHANGED <<out, seen>>

Act == \/ \E h \in {1, 2} : DDraw(h) \/ DOpen(h)
       \/ \E t \in DOMAIN streams, r \in Requests : DRequest(t, r[1], r[2])
Extra == DReseed \/ (\E h \in Handles : DQuery(h)) \/ DDraw(3) \/ DOpen(3)
Next == Setup \/ (Ready /\ Len(hist) < Depth /\ Act)
NextAll == Setup \/ (Ready /\ Len(hist) < Depth /\ (Act \/ Extra))
-----------------------------------------------------------------------------
Agree == bad = {}
\* the place on the tape is the sum of the words of everything delivered
Place == Ready =>
  tapes[Src].pos = FoldLeft(LAMBDA acc, e : acc + WordsAt(e[1], e[2][2]), 0, seen)
\* what comes next depends on the place alone, not on who asked before: the
\* delivered elements are the direct draws of the same objects in turn
RECURSIVE Direct(_, _)
Direct(keys, p) == IF keys = <<>> THEN <<>>
                   ELSE <<<<keys[1], Val(keys[1], p)>>>> \o Direct(Tail(keys), p + WordsAt(keys[1], p))
AsDirect == Ready => seen = Direct([i \in 1..Len(seen) |-> seen[i][1]], 0)
\* a draw is a function of parameters and place
Function1 == \A k \in DOMAIN drawn : drawn[k][1] = Val(k[1], k[3])
\* copies answer alike
Copies == Ready => Answers(1) = Answers(3)
\* streams never end: every request is possible in every state
Endless == Ready /\ Len(hist) < Depth => \A t \in DOMAIN streams : ENABLED DRequest(t, "next", 1)
\* opening reads nothing
Lazy == [][(DOMAIN streams # DOMAIN streams') => tapes' = tapes]_mvars

\* histories of full length, for the library
ASSUME TLCSet(1, <<>>)
Note == Len(hist) = Depth => TLCSet(1, Append(TLCGet(1), [s |-> hist]))
Post == ndJsonSerialize(IOEnv.EXPORT, FlattenSeq(TLCGet("all")[1]))
=============================================================================
