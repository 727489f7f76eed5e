------------------------------ MODULE ProbTrace ------------------------------
(***************************************************************************)
(* Reads a trace recorded from the real library, event by event, against   *)
(* the actions of Prob.  An event that the specification does not allow is *)
(* recorded in faults under the property it breaks, and validation goes on *)
(* from the state the event leads to.  CHECK selects the properties.       *)
(***************************************************************************)
EXTENDS Prob, Relations, Json, IOUtils

CONSTANT CHECK
MaxFaults == 40
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, faults, stats
vars == <<sys, l, faults, stats>>

\* a finding is [p, c, v]: property, what was looked at, verdict
Finding(p, c, v) == <<[p |-> p, c |-> c, v |-> v]>>
On(p) == p \in CHECK
Fails(b, p, c) == IF On(p) THEN Finding(p, c, Truth(b, c)) ELSE <<>>

Cls(h, c) == Obj(h).fam \o "/" \o c
OpProp(o, op) ==
  CASE op = "cdf" -> "C02" [] op = "pdf" -> "C03" [] op = "pmf" -> "C04"
    [] op = "inv" -> IF o.fam \in Continuous THEN "C05" ELSE IF o.fam = "binomial" THEN "C07" ELSE "C06"
    [] op \in {"mean", "var", "sd"} -> "C08" [] op \in {"skew", "kurt"} -> "C09" [] op = "ent" -> "C10"
    [] op = "med" -> "C11" [] op = "modes" -> "C12" [] op = "get" -> "C19"

IsListOp(op) == op \in {"modes", "get"}
\* an object made by fitting, by default, or from the complementary probability
\* answers like the object with the parameters it reports
Made(h, name, v) ==
  LET c == objs[h].c
      p == IF c = "fit" THEN "C21" ELSE IF c \in {"def", "wf"} THEN "C19" ELSE "none"
  IN  IF On(p) THEN Finding(p, c \o "/" \o name, v) ELSE <<>>
\* findings about a query
QueryFindings(e) ==
  LET h == e.h
      o == Obj(h)
      p == OpProp(o, e.q)
      name == e.q \o "/" \o o.fam
      good == e.o = "ok"
      num == good /\ ~IsListOp(e.q) /\ IsNum(e.r)
  IN  (IF e.q # "get" THEN Made(h, name, IF good THEN Judge(o, objs[h].c, e.q, e.x, e.r) ELSE Verdict(FALSE, Off, e.o)) ELSE <<>>)
      \o (IF On(p) THEN
         IF good THEN LET v == Judge(o, objs[h].c, e.q, e.x, e.r) IN Finding(p, name \o "/" \o v.c, v)
         ELSE Finding(p, name \o "/" \o (IF e.o = "hang" /\ e.q \in {"inv", "med"} /\ ~QReach(o) THEN "reach" ELSE e.o),
                      Verdict(FALSE, Off, e.o))
       ELSE <<>>)
      \o (IF e.q = "cdf" /\ On("C01") THEN
            IF ~num THEN Finding("C01", name \o "/" \o e.o, Verdict(FALSE, Off, "nan"))
            ELSE Fails(e.r[1] >= 0 /\ NLe(e.r, One), "C01", name \o "/range")
                 \o (IF XLt(e.x, SupLo(o)) THEN Fails(e.r = Zero, "C01", name \o "/below") ELSE <<>>)
                 \o (IF XLt(SupHi(o), e.x) THEN Fails(e.r = One, "C01", name \o "/above") ELSE <<>>)
                 \o (IF Ladder(h, "cdf") # <<>> THEN Fails(CdfMonotone(h, e.x, e.r), "C01", name \o "/monotone") ELSE <<>>)
          ELSE <<>>)
      \o (IF e.q = "inv" /\ On("C05") /\ good /\ o.fam \in Continuous /\ Ladder(h, "inv") # <<>>
          THEN Fails(InvMonotone(h, e.x, e.r), "C05", name \o "/monotone") ELSE <<>>)
      \o (IF e.q = "cdf" /\ On("C04") /\ o.fam \in Discrete /\ MassSumKnown(h, e.x)
          THEN LET b == num /\ MassesAddUp(h, e.x, e.r)
               IN  Fails(b, "C04", "sum/" \o o.fam \o (IF ~b /\ num /\ MassesAddUpEleven(h, e.x, e.r) THEN "/eleven" ELSE ""))
          ELSE <<>>)
      \o (IF e.q = "cdf" /\ On("C04") /\ o.fam = "categorical" /\ Len(o.a) > 64 /\ IsInteger(e.x)
          THEN LET v == IF good THEN Judge(o, objs[h].c, e.q, e.x, e.r) ELSE Verdict(FALSE, Off, e.o)
               IN  Finding("C04", "sum/long/" \o v.c, v)
          ELSE <<>>)
      \o (IF On("C18") THEN Fails(Repeats(h, e.q, e.x, e.r) /\ good, "C18",
                                  (IF <<e.q, e.x>> \in DOMAIN Answers(h) THEN "again/" ELSE "first/") \o name) ELSE <<>>)
      \o (IF On("C22") THEN
            LET c == (IF <<e.q, e.x>> \in DOMAIN Answers(h) THEN "again/" ELSE "first/") \o name
            IN  IF ~good THEN Finding("C22", c \o "/" \o e.o, Verdict(FALSE, Off, e.o))
                ELSE IF Repeats(h, e.q, e.x, e.r) THEN Fails(TRUE, "C22", c)
                ELSE Finding("C22", "differs/" \o name, Judge(o, objs[h].c, e.q, e.x, e.r))
          ELSE <<>>)

\* findings about a draw; flip is the orientation it settles
\* The law of a binomial with so many trials is out of reach; its draws are
\* compared with the quantile that the same object gives at the number read.
OutOfReach(o) == o.fam = "binomial" /\ NLt(Pow2(36), NMul(o.a[1], NMul(o.a[2], o.a[3])))
OwnQuantile(o, e, flip) ==
  IF Len(e.w) # 1 THEN Verdict(FALSE, Off, "reads")
  ELSE LET u == UOf(e.w, 1)
           k == <<"inv", IF flip THEN NSub(One, u) ELSE u>>
           known == Answers(e.h)
       IN  IF k \notin DOMAIN known THEN Verdict(TRUE, 2, "unasked")
           ELSE LET ok == NLe(NAbs(NSub(e.r, known[k])), NMax(One, NMul(o.a[1], Pow2(-52))))
                IN  Verdict(ok, IF ok THEN 1 ELSE Off, "own")
OneDrawVerdict(o, e, flip) == IF OutOfReach(o) THEN OwnQuantile(o, e, flip) ELSE JudgeOneDraw(o, e.w, e.r, flip)
Orient(o, e) ==                       \* {} none fits, otherwise the fitting ones
  {b \in IF o.fam \in DOMAIN orient THEN {orient[o.fam]} ELSE BOOLEAN :
     LET v == OneDrawVerdict(o, e, b) IN v.ok \/ v.c = "nearest"}
DrawProp(o) == IF o.fam \in OneDraw THEN "C13" ELSE IF o.fam \in NormalBased THEN "C14" ELSE "C15"
DrawFindings(e) ==
  LET h == e.h
      o == Obj(h)
      p == DrawProp(o)
      id == tapes[e.s].id
      good == e.o = "ok"
      name == "draw/" \o o.fam
  IN  (IF ~On(p) THEN <<>>
       ELSE IF ~good THEN Finding(p, name \o "/" \o e.o, Verdict(FALSE, Off, e.o))
       ELSE IF p = "C13"
            THEN LET fit == Orient(o, e)
                     v == OneDrawVerdict(o, e, IF fit # {} THEN CHOOSE b \in fit : TRUE ELSE Get(orient, o.fam, FALSE))
                 IN  Finding(p, name \o "/" \o v.c, v)
            ELSE LET v == JudgeRun(o, e.w, e.r) IN Finding(p, name \o "/" \o v.c, v))
      \o Made(h, name, IF ~good THEN Verdict(FALSE, Off, e.o)
                        ELSE IF o.fam \in OneDraw
                             THEN LET fit == Orient(o, e) IN OneDrawVerdict(o, e, IF fit # {} THEN CHOOSE b \in fit : TRUE ELSE FALSE)
                             ELSE JudgeRun(o, e.w, e.r))
      \o Fails(good /\ InSupport(o, e.r), "C16", name \o "/" \o e.o)
      \o (IF On("C18") THEN Fails(good /\ DrawRepeats(h, id, e.p, e.r, e.n), "C18",
                                  (IF DrawKey(h, id, e.p) \in DOMAIN drawn THEN "again/" ELSE "first/") \o name) ELSE <<>>)
      \o (IF On("C22") THEN
            LET c == (IF DrawKey(h, id, e.p) \in DOMAIN drawn THEN "again/" ELSE "first/") \o name
            IN  IF ~good THEN Finding("C22", c \o "/" \o e.o, Verdict(FALSE, Off, e.o))
                ELSE IF DrawRepeats(h, id, e.p, e.r, e.n) THEN Fails(TRUE, "C22", c)
                ELSE Finding("C22", "differs/" \o name,
                       IF DrawProp(o) = "C13" THEN Truth(\E b \in BOOLEAN : OneDrawVerdict(o, e, b).ok, "value") ELSE JudgeRun(o, e.w, e.r))
          ELSE <<>>)
      \o Fails(e.p = tapes[e.s].pos, "C17", "position")

RunFindings(e) ==
  LET id == tapes[e.s].id
  IN  (IF On("C18") THEN Fails(e.o = "ok" /\ RunRepeats(e.h, id, e.p, e.k, e.r, e.n), "C18",
                            (IF RunKey(e.h, id, e.p, e.k) \in DOMAIN drawn THEN "again/run/" ELSE "first/run/") \o Obj(e.h).fam) ELSE <<>>)
      \o Fails(e.o = "ok" /\ e.p = tapes[e.s].pos, "C17", "run")

StreamFindings(e) ==
  IF ~On("C17") THEN <<>> ELSE
  LET st == streams[e.t]
      h == st.h
      id == tapes[st.s].id
      name == "request/" \o e.m \o "/" \o Obj(h).fam
      long == e.k > LongRun
      y == RunKey(h, id, e.p, Consumed(e.m, e.k))
      want == IF long THEN <<y \in DOMAIN drawn, <<>>, IF y \in DOMAIN drawn THEN drawn[y][2] ELSE 0>>
              ELSE Elements(h, id, e.p, Consumed(e.m, e.k), <<TRUE, <<>>, 0>>)
  IN  IF e.o # "ok" THEN Finding("C17", name \o "/" \o e.o, Verdict(FALSE, Off, e.o))
      ELSE IF e.m = "hint"
           THEN \* endless: no finite upper bound (2^63 encodes none)
                Fails(e.r[2] = Pow2(63) /\ e.n = 0, "C17", name)
      ELSE Fails(e.p = tapes[st.s].pos, "C17", "position")
           \o Fails(want[1] /\ e.r = (IF long THEN RunReturned(e.m, drawn[y][1]) ELSE Returned(e.m, e.k, want[2])) /\ e.n = want[3],
                    "C17", (IF long THEN "long/" ELSE "") \o name)

\* a fit to the numbers a, k times over: mean and unbiased deviation
FitMean(a) == NDiv(Sum(a), I(Len(a)))
FitDevOf(a, k) == LET m == FitMean(a)
                  IN NSqrt(NDiv(NMul(I(k), Sum([i \in 1..Len(a) |-> Sq(NSub(a[i], m))])), I(k * Len(a) - 1)))
FitDev(a) == FitDevOf(a, 1)
FitFindings(e) ==
  IF ~On("C21") /\ ~On("C22") THEN <<>> ELSE
  LET pr == IF On("C21") THEN "C21" ELSE "C22" IN
  IF e.o # "ok" THEN Finding(pr, "fit/" \o e.o, Verdict(FALSE, Off, e.o))
  ELSE LET big == NMaxS([i \in 1..Len(e.a) |-> NAbs(e.a[i])])
           n == I(e.k * Len(e.a))
           s == FitDevOf(e.a, e.k)
           \* rounding of the mean moves the squares by its square
           mag == NAdd(s, NMul(NDiv(Sq(NMul(big, NMul(n, Pow2(-53)))), s), Pow2(44)))
           c == IF e.k > 1 THEN "over" ELSE IF Len(e.a) = 2 THEN "two" ELSE IF Len(e.a) < 10 THEN "few" ELSE "many"
       IN  LET v1 == Within(e.r[1], FitMean(e.a), NMul(big, n), -50, c)
               v2 == Within(e.r[2], s, NMul(NAdd(mag, NMul(big, Pow2(-8))), n), -46, c)
           IN Finding(pr, "mean/" \o c, v1) \o Finding(pr, "deviation/" \o c, v2)

NewFindings(e) ==
  IF On("C22") /\ (e.c = "def" \/ ValidArgs(e.f, e.a)) THEN Fails(e.o = "ok", "C22", "accept/" \o e.f) ELSE
  IF ~On("C19") THEN <<>> ELSE
  IF e.c = "def" THEN Fails(e.o = "ok", "C19", "default/" \o e.f)
  ELSE (IF ValidArgs(e.f, e.a) THEN Fails(e.o = "ok", "C19", "accept/" \o e.f)
        ELSE IF BadArgs(e.f, e.a) THEN Fails(e.o = "panic", "C19", "refuse/" \o e.f) ELSE <<>>)

ThreadDraw(e) ==
  IF On("C18") THEN Fails(e.o = "ok" /\ DrawRepeats(e.h, e.id, e.p, e.r, e.n), "C18",
                          "thread/draw/" \o Obj(e.h).fam) ELSE <<>>

Unclear(e) == e.e = "new" /\ (e.o # "ok" \/ (e.c # "def" /\ ~ValidArgs(e.f, e.a)))
Findings(e) ==
  CASE e.e = "new" -> NewFindings(e)
    [] e.e = "q" -> IF e.h \in DOMAIN objs THEN QueryFindings(e) ELSE <<>>
    [] e.e = "d" -> IF e.h \in DOMAIN objs THEN DrawFindings(e) ELSE <<>>
    [] e.e = "td" -> ThreadDraw(e)
    [] e.e = "dk" -> IF e.h \in DOMAIN objs THEN RunFindings(e) ELSE <<>>
    [] e.e = "st" -> Fails(e.h \in DOMAIN objs /\ e.n = 0 /\ e.p = tapes[e.s].pos, "C17", "open/" \o Obj(e.h).fam)
    [] e.e = "sn" -> StreamFindings(e)
    [] e.e = "sync" -> Fails(\A i \in 1..Len(e.r) : e.r[i] = 1, "C18", "sync")
    [] e.e = "thr" -> Fails(FALSE, "C18", "thread/" \o e.o)
    [] e.e = "fit" -> FitFindings(e)
    [] e.e = "rel" -> IF On("C20") /\ {e.h, e.g} \subseteq DOMAIN objs THEN RelFindings(e) ELSE <<>>
    [] OTHER -> <<>>

\* whether answers are to be remembered at all
Remembering == CHECK \cap {"C01", "C04", "C05", "C18", "C20", "C22"} # {}
SysStep(e) ==
  CASE e.e = "new" -> IF Unclear(e) THEN UNCHANGED sys ELSE New(e.h, e.f, e.c, e.a)
    [] e.e = "cl" -> Copy(e.h, e.g)
    [] e.e = "q" -> IF e.o = "ok" /\ e.h \in DOMAIN objs
                       /\ (Remembering \/ (On("C13") /\ e.q = "inv" /\ OutOfReach(Obj(e.h))))
                       /\ (CHECK \cap {"C18", "C22"} # {} => <<e.q, e.x>> \notin DOMAIN Answers(e.h))
                    THEN Remember(e.h, e.q, e.x, e.r) ELSE UNCHANGED sys
    [] e.e = "src" -> Source(e.s, e.id)
    [] e.e = "d" -> /\ tapes' = [tapes EXCEPT ![e.s].pos = e.p + e.n]
                    /\ drawn' = IF e.o = "ok" /\ CHECK \cap {"C17", "C18", "C22"} # {} /\ e.h \in DOMAIN objs
                                   /\ DrawKey(e.h, tapes[e.s].id, e.p) \notin DOMAIN drawn
                                THEN DrawMemo(e.h, tapes[e.s].id, e.p, e.r, e.n) ELSE drawn
                    /\ orient' = IF On("C13") /\ e.o = "ok" /\ e.h \in DOMAIN objs /\ Obj(e.h).fam \in OneDraw
                                    /\ Obj(e.h).fam \notin DOMAIN orient
                                 THEN LET fit == Orient(Obj(e.h), e)
                                      IN IF Cardinality(fit) = 1
                                         THEN Put(orient, Obj(e.h).fam, CHOOSE b \in fit : TRUE) ELSE orient
                                 ELSE orient
                    /\ UNCHANGED <<objs, streams, memo, ladder>>
    [] e.e = "td" -> /\ drawn' = IF e.o = "ok" /\ DrawKey(e.h, e.id, e.p) \notin DOMAIN drawn
                                 THEN DrawMemo(e.h, e.id, e.p, e.r, e.n) ELSE drawn
                     /\ UNCHANGED <<objs, tapes, streams, memo, ladder, orient>>
    [] e.e = "dk" -> /\ tapes' = [tapes EXCEPT ![e.s].pos = e.p + e.n]
                     /\ drawn' = IF e.o = "ok" /\ e.h \in DOMAIN objs /\ RunKey(e.h, tapes[e.s].id, e.p, e.k) \notin DOMAIN drawn
                                 THEN RunMemo(e.h, tapes[e.s].id, e.p, e.k, e.r, e.n) ELSE drawn
                     /\ UNCHANGED <<objs, streams, memo, ladder, orient>>
    [] e.e = "st" -> Open(e.t, e.h, e.s)
    [] e.e = "sn" -> /\ tapes' = [tapes EXCEPT ![streams[e.t].s].pos = e.p + e.n]
                     /\ UNCHANGED <<objs, streams, memo, ladder, drawn, orient>>
    [] e.e = "fit" -> IF e.o = "ok" /\ Pos(e.r[2]) THEN New(e.h, "gaussian", "fit", e.r) ELSE UNCHANGED sys
    [] OTHER -> UNCHANGED sys

Count(st, f) ==
  LET k == f.p \o " " \o f.c
      old == Get(st, k, [n |-> 0, d |-> -999])
      d == IF f.v.ok /\ f.v.d > old.d THEN f.v.d ELSE old.d
  IN  Put(st, k, [n |-> old.n + 1, d |-> d])

Init == SysInit /\ l = 1 /\ faults = <<>> /\ stats = <<>>
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
         fs == Findings(e)
         bad == SelectSeq(fs, LAMBDA f : ~f.v.ok)
         \* of each class the first MaxFaults are kept
         new == SelectSeq(bad, LAMBDA f : Cardinality({i \in 1..Len(faults) : faults[i].c = f.c}) < MaxFaults)
     IN  /\ SysStep(e)
         /\ faults' = IF new = <<>> THEN faults ELSE
              faults \o [i \in 1..Len(new) |-> [i |-> e.i, p |-> new[i].p, c |-> new[i].c, d |-> new[i].v.d, v |-> new[i].v.c]]
         /\ stats' = FoldLeft(LAMBDA acc, f : Count(acc, f), stats, fs)

\* the whole trace is explained; the report is written at its end
Report == l > Len(Trace) =>
  ndJsonSerialize(IOEnv.REPORT, <<[events |-> Len(Trace), faults |-> faults,
                                   stats |-> [k \in DOMAIN stats |-> stats[k]]]>>)
View == l
=============================================================================
