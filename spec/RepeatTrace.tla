---------------------------- MODULE RepeatTrace ----------------------------
(* Checks what the code did with tunes, play orders and sets of repeat marks against Repeat.tla.
   Every line of the trace is one call; they do not depend on each other. *)
EXTENDS Repeat, TLC, Json, IOUtils

CONSTANT Prop
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Chunk == 400

VARIABLES i, bad
vars == <<i, bad>>

Elems(s) == {s[j] : j \in DOMAIN s}

---------------------------------------------------------------------------
TuneOf(bars) == [k \in DOMAIN bars |-> [t |-> bars[k][1], m |-> Elems(bars[k][2]), r |-> bars[k][3]]]

RenderBad(l) ==
  LET tune == TuneOf(l.i.b)
      faults == Faults(tune)
      doubtful == Doubtful(l.i.r, tune)
      accepted == l.o.k = "ok"
      plain == TicksOf(tune, {"C", "D"}) = <<>>
      order == Plays(l.i.r, tune)
  IN CASE Prop = "P11" ->
            (CASE l.p # "" -> "preparing playback crashes: " \o l.p
               [] accepted /\ faults # {} /\ ~doubtful -> "accepted in spite of " \o ToString(faults)
               [] ~accepted /\ faults = {} -> "rejected without a reason: " \o ToString(l.o)
               [] ~accepted /\ Fault(l.o.e, l.o.t) \notin faults -> "wrong reason: " \o ToString(<<l.o.e, l.o.t>>) \o " instead of " \o ToString(faults)
               [] OTHER -> "")
       [] ~(\A k \in DOMAIN tune : Compatible(tune[k].m)) -> ""
       [] Prop = "P09" /\ plain /\ faults = {} ->
            (CASE l.p # "" -> "preparing playback crashes: " \o l.p
               [] ~accepted -> "a valid tune is not played: " \o ToString(l.o)
               [] Merge(l.o.c) \notin order -> "played " \o ToString(l.o.c) \o " instead of " \o ToString(order)
               [] OTHER -> "")
       [] Prop = "P10" /\ ~plain /\ faults = {} ->
            (CASE l.p # "" -> "preparing playback crashes: " \o l.p
               [] ~accepted -> "a valid tune is not played: " \o ToString(l.o)
               [] Merge(l.o.c) \notin order -> "played " \o ToString(l.o.c) \o " instead of one of " \o ToString(order)
               [] OTHER -> "")
       [] Prop = "P25" /\ faults = {} /\ accepted ->
            LET readings == Readings(l.i.r, tune)
                second == HasSecond(tune, Globals(tune))
                heard == Merge(l.o.c)
                mine == {x \in readings : Merge(x[1] \o x[2]) = heard}
            IN CASE Elems(l.o.w) # Warnings(tune) -> "warns of " \o ToString(l.o.w) \o " instead of " \o ToString(Warnings(tune))
                 [] Len(l.o.w) # Cardinality(Warnings(tune)) -> "warns twice: " \o ToString(l.o.w)
                 [] ~second /\ Merge(l.o.x) # WithoutSecond(tune) ->
                      "tells " \o ToString(l.o.x) \o " instead of " \o ToString(WithoutSecond(tune))
                 [] second /\ mine # {} /\ \A x \in mine : Merge(x[2]) # Merge(l.o.x) ->
                      "tells that " \o ToString(l.o.x) \o " is played in the second pass"
                 [] OTHER -> ""
       [] OTHER -> ""

---------------------------------------------------------------------------
(* P12: m is the timeline, q the answers to questions "when is tick q[1] played for the q[2]-th time" *)
Limit == 5       \* no more than five times can be asked for
RECURSIVE TimelineOf(_, _)
TimelineOf(cs, k) == IF k > Len(cs) THEN <<>> ELSE <<<<BeginsAt(cs, k), cs[k][1], cs[k][2]>>>> \o TimelineOf(cs, k + 1)
\* stretches of no length take no part in the performance
Sounding(cs) == SelectSeq(cs, LAMBDA c : c[1] < c[2])
SoundingLine(m) == SelectSeq(m, LAMBDA e : e[2] < e[3])
AnswerOk(cs, q) ==
  LET all == Moments(cs, q[1])
      k == IF q[2] < Limit THEN q[2] ELSE Limit
  IN IF k <= Len(all) THEN q[3] = "ok" /\ q[4] = all[k]
     ELSE q[3] # "ok" /\ q[4] = Len(all)
LineBad(cs, o) ==
  LET play == Sounding(cs) IN
  CASE SoundingLine(o.m) # TimelineOf(play, 1) -> "the timeline of " \o ToString(cs) \o " is " \o ToString(o.m)
    [] \E q \in Elems(o.q) : ~AnswerOk(play, q) ->
         "wrong moment in " \o ToString(cs) \o ": " \o ToString(CHOOSE q \in Elems(o.q) : ~AnswerOk(play, q))
    [] OTHER -> ""
MapBad(l) ==
  IF l.p # "" THEN "making the timeline crashes: " \o l.p
  ELSE LET cs == l.i.c
           raw == LineBad(cs, l.o.raw)
           opt == LineBad(l.o.o, l.o.opt)
       IN CASE Merge(l.o.o) # Merge(cs) -> "merging " \o ToString(cs) \o " gives " \o ToString(l.o.o)
            [] raw # "" -> raw
            [] opt # "" -> opt
            [] OTHER -> ""

---------------------------------------------------------------------------
(* P13 *)
AddTo(s, m) == IF Dislikes[m] \cap s = {} THEN [k |-> "ok", s |-> s \cup {m}] ELSE [k |-> "err", s |-> Dislikes[m] \cap s]
Same(l, want) == l.o.k = want.k /\ Elems(l.o.s) = want.s
RECURSIVE MarksBad(_, _, _, _)
\* ops: <<"add" or "rem", mark>>; obs: <<marks now, marks named as incompatible>>
MarksBad(s, ops, obs, k) ==
  IF k > Len(ops) THEN ""
  ELSE LET m == ops[k][2]
           want == IF ops[k][1] = "rem" THEN [k |-> "ok", s |-> s \ {m}] ELSE AddTo(s, m)
           now == IF want.k = "ok" THEN want.s ELSE s
           named == IF want.k = "ok" THEN {} ELSE want.s
       IN IF Elems(obs[k][1]) # now \/ Elems(obs[k][2]) # named
          THEN "after " \o ToString(SubSeq(ops, 1, k)) \o ": " \o ToString(obs[k])
          ELSE MarksBad(now, ops, obs, k + 1)
SetBad(l) ==
  IF l.p # "" THEN "crashes: " \o l.p
  ELSE LET s == IF l.op = "marks" THEN {} ELSE Elems(l.i.s)
           ok == CASE l.op = "try_add" -> Same(l, AddTo(s, l.i.m))
                   [] l.op = "remove" -> Same(l, [k |-> "ok", s |-> s \ {l.i.m}]) /\ l.o.n = Cardinality(s \ {l.i.m})
                   [] l.op = "remove_endings" -> Same(l, [k |-> "ok", s |-> s \ Endings]) /\ l.o.n = Cardinality(s \ Endings)
                   [] l.op = "ending" -> l.o.n = EndingNo(s)
                   [] OTHER -> TRUE
       IN CASE l.op = "marks" -> MarksBad({}, l.i.ops, l.o, 1)
            [] ~ok -> l.op \o " on " \o ToString(l.i) \o " gives " \o ToString(l.o)
            [] OTHER -> ""

---------------------------------------------------------------------------
BadAt(l) ==
  CASE l.op = "render" -> RenderBad(l)
    [] l.op = "map" -> IF Prop = "P12" THEN MapBad(l) ELSE ""
    [] l.op \in {"try_add", "remove", "remove_endings", "ending", "marks"} -> IF Prop = "P13" THEN SetBad(l) ELSE ""
    [] OTHER -> ""

Init == /\ i \in {Chunk * c + 1 : c \in 0 .. (N - 1) \div Chunk}
        /\ bad = BadAt(Trace[i])
Step == /\ bad = ""
        /\ i < N /\ i % Chunk # 0
        /\ i' = i + 1
        /\ bad' = BadAt(Trace[i + 1])
Spec == Init /\ [][Step]_vars
Conforms == bad = ""
=============================================================================
