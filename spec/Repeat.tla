------------------------------- MODULE Repeat -------------------------------
(* How a tune with repeat marks is played.

   A tune is a sequence of bar lines [t |-> tick, m |-> set of marks, r |-> rhythm or <<>>].
   Marks: "S" repeat start, "E" repeat end, "1".."4" endings, "C" D.C., "D" D.S., "G" Segno,
   "O" Coda, "F" Fine.  Nothing in this module says in which order an implementation looks at things:
   `Read' takes the bar lines from left to right and finds the sections, `Plays' lays them out. *)
EXTENDS Integers, Sequences, FiniteSets

End == 2000000000          \* stands for "to the end of the tune"
Marks == {"S", "E", "C", "F", "D", "G", "O", "1", "2", "3", "4"}
Endings == {"1", "2", "3", "4"}

TickLen(r) == (960 * r[1]) \div r[2]

SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Last(s) == s[Len(s)]

---------------------------------------------------------------------------
(* Which marks do not share a bar line (symmetric by construction). *)
Dislikes ==
  LET pairs == {<<"S", e>> : e \in Endings} \cup {<<"C", e>> : e \in Endings} \cup {<<"D", e>> : e \in Endings}
                 \cup {<<"G", e>> : e \in Endings} \cup {<<"E", e>> : e \in Endings}
                 \cup {<<d, e>> \in Endings \X Endings : d # e}
                 \cup {<<"S", "C">>, <<"S", "D">>, <<"C", "D">>, <<"C", "G">>}
  IN [a \in Marks |-> {b \in Marks : <<a, b>> \in pairs \/ <<b, a>> \in pairs}]
Compatible(ms) == \A a \in ms : Dislikes[a] \cap ms = {}

EndingNo(m) == CASE "1" \in m -> 1 [] "2" \in m -> 2 [] "3" \in m -> 3 [] "4" \in m -> 4 [] OTHER -> 0

---------------------------------------------------------------------------
(* Finding the sections. The state of the reader:
   mode   "top"    nothing read yet that ends or begins a section: a repeat may have begun at the top
          "plain"  outside of any section
          "repeat" inside a section that a start mark opened
          "ending" inside the endings of a section
   from   where the current stretch began;  ends  where the endings read so far began
   secs   the sections found: [k |-> "once" | "twice", s, e] or [k |-> "endings", s, e, at]
   mark   tick of the first D.C./D.S. read, or -1;  segno  that of the first Segno, or -1
   faults what is wrong with the sections; the reader stops there *)
Fault(e, t) == [e |-> e, t |-> t]
Reader0 == [mode |-> "top", from |-> 0, ends |-> <<>>, secs |-> <<>>, mark |-> -1, segno |-> -1, faults |-> {}]

Once(s, e) == [k |-> "once", s |-> s, e |-> e, at |-> <<>>]
Twice(s, e) == [k |-> "twice", s |-> s, e |-> e, at |-> <<>>]
WithEndings(s, at, e) == [k |-> "endings", s |-> s, e |-> e, at |-> at]

Seen(s, b) == [s EXCEPT !.mark = IF s.mark = -1 /\ b.m \cap {"C", "D"} # {} THEN b.t ELSE @,
                        !.segno = IF s.segno = -1 /\ "G" \in b.m THEN b.t ELSE @]
\* an end mark closes a section; with a start mark it also opens the next
Close(s, b) == [s EXCEPT !.secs = Append(@, Twice(s.from, b.t)), !.from = b.t,
                         !.mode = IF "S" \in b.m THEN "repeat" ELSE "plain"]
Open(s, b) == [s EXCEPT !.secs = Append(@, Once(s.from, b.t)), !.from = b.t, !.mode = "repeat"]
FirstEnding(s, b) == [s EXCEPT !.mode = "ending", !.ends = <<b.t>>]

FaultsAt(s, b) ==
  LET n == EndingNo(b.m)
      isEnd == "E" \in b.m
      isStart == "S" \in b.m
      isMark == b.m \cap {"C", "D"} # {}
      wrongFirst == IF n > 1 /\ ~isEnd /\ ~isStart THEN {Fault("InvalidRegionIndex", <<b.t, n, 1>>)} ELSE {}
  IN CASE s.mode = "top" ->
            (IF (isEnd \/ n > 0) /\ s.mark >= 0 /\ s.mark < b.t THEN {Fault("DcDsWhileRepeat", <<s.mark>>)} ELSE {})
            \cup (IF n > 0 /\ isMark /\ ~isEnd /\ ~isStart THEN {Fault("DcDsWhileVariation", <<b.t>>)} ELSE {})
            \cup wrongFirst
       [] s.mode = "plain" -> IF isEnd THEN {Fault("OrphanRepeatEnd", <<b.t>>)} ELSE {}
       [] s.mode = "repeat" ->
            (IF isStart /\ ~isEnd THEN {Fault("DuplicatedRepeatStart", <<b.t>>)} ELSE {})
            \cup (IF isMark /\ ~isEnd THEN {Fault("DcDsWhileRepeat", <<b.t>>)} ELSE {})
            \cup wrongFirst
       [] s.mode = "ending" ->
            LET cur == Len(s.ends) IN
            (IF isEnd THEN {Fault("RepeatInVariation", <<b.t>>)} ELSE {})
            \cup (IF n > 0 /\ isMark THEN {Fault("DcDsWhileVariation", <<b.t>>)} ELSE {})
            \cup (IF n > 0 /\ n # cur /\ n # cur + 1
                  THEN {Fault("InvalidRegionIndex", <<b.t, n, IF cur < 4 THEN cur + 1 ELSE 4>>)} ELSE {})
            \cup (IF n = 0 /\ ~isEnd /\ s.ends[1] <= s.segno /\ s.segno < Last(s.ends)
                  THEN {Fault("SegnoWhileVariation", <<b.t>>)} ELSE {})

Read(s0, b) ==
  IF s0.faults # {} THEN s0
  ELSE LET s == Seen(s0, b)
           n == EndingNo(b.m)
           f == FaultsAt(s, b)
       IN IF f # {} THEN [s EXCEPT !.faults = f]
          ELSE CASE s.mode \in {"top", "repeat"} ->
                      IF "E" \in b.m THEN Close(s, b)
                      ELSE IF "S" \in b.m THEN Open(s, b)
                      ELSE IF n = 1 THEN FirstEnding(s, b)
                      ELSE s
                 [] s.mode = "plain" -> IF "S" \in b.m THEN Open(s, b) ELSE s
                 [] s.mode = "ending" ->
                      IF n = Len(s.ends) + 1 THEN [s EXCEPT !.ends = Append(@, b.t)]
                      ELSE IF n > 0 THEN s
                      ELSE [s EXCEPT !.secs = Append(@, WithEndings(s.from, s.ends, b.t)), !.from = b.t, !.ends = <<>>,
                                     !.mode = IF "S" \in b.m THEN "repeat" ELSE "plain"]

Finish(s) ==
  IF s.faults # {} THEN s
  ELSE CASE s.mode \in {"top", "plain"} -> [s EXCEPT !.secs = Append(@, Once(s.from, End)), !.from = End]
         [] s.mode = "repeat" -> [s EXCEPT !.faults = {Fault("NoRepeatEnd", <<s.from>>)}]
         [] s.mode = "ending" -> [s EXCEPT !.faults = {Fault("VariationNotClosed", <<Last(s.ends)>>)}]

RECURSIVE ReadFrom(_, _, _)
ReadFrom(s, tune, k) == IF k > Len(tune) THEN Finish(s) ELSE ReadFrom(Read(s, tune[k]), tune, k + 1)
Sections(tune) == ReadFrom(Reader0, tune, 1)

---------------------------------------------------------------------------
(* The marks that concern the tune as a whole *)
RECURSIVE TicksFrom(_, _, _)
TicksFrom(tune, ms, k) ==
  IF k > Len(tune) THEN <<>>
  ELSE [x \in 1 .. Cardinality(tune[k].m \cap ms) |-> tune[k].t] \o TicksFrom(tune, ms, k + 1)
TicksOf(tune, ms) == TicksFrom(tune, ms, 1)
One(s) == IF s = <<>> THEN -1 ELSE s[1]

Globals(tune) ==
  [mark |-> One(TicksOf(tune, {"C", "D"})), isDs |-> \E k \in DOMAIN tune : "D" \in tune[k].m,
   segno |-> One(TicksOf(tune, {"G"})), fine |-> One(TicksOf(tune, {"F"})), coda |-> TicksOf(tune, {"O"})]

CountFaults(tune) ==
  LET two(e, ms) == LET ts == TicksOf(tune, ms) IN IF Len(ts) > 1 THEN {Fault(e, <<ts[1], ts[2]>>)} ELSE {}
      codas == TicksOf(tune, {"O"})
  IN two("DuplicatedDsDc", {"C", "D"}) \cup two("DuplicatedFine", {"F"}) \cup two("DuplicatedSegno", {"G"})
     \cup (IF Len(codas) > 2 THEN {Fault("MoreThanTwoCodas", <<codas[1], codas[2], codas[3]>>)} ELSE {})

---------------------------------------------------------------------------
(* Where the second pass begins *)
FirstBar(tune) == LET T == {tune[k].t : k \in DOMAIN tune} \ {0} IN IF T = {} THEN -1 ELSE SetMin(T)
TopRhythm(tuneRhythm, tune) ==
  IF tune # <<>> /\ tune[1].t = 0 /\ tune[1].r # <<>> THEN tune[1].r ELSE tuneRhythm
\* whether there is a second pass at all: D.C. at tick 0 of a tune of nothing but that bar line has none
HasSecond(tune, g) == g.mark >= 0 /\ (g.isDs \/ FirstBar(tune) >= 0)

Starts(tuneRhythm, tune, g) ==
  IF g.segno >= 0 THEN {g.segno}
  ELSE LET first == FirstBar(tune)
           full == TickLen(TopRhythm(tuneRhythm, tune))
           before == {tune[k].t : k \in DOMAIN tune} \cap (0 .. g.mark - 1)
           len == g.mark - (IF before = {} THEN 0 ELSE SetMax(before))
           changes == \E k \in DOMAIN tune : tune[k].t > 0 /\ tune[k].t <= g.mark /\ tune[k].r # <<>>
       IN CASE first >= full -> {0}
            [] ~changes /\ len = full -> {first}
            [] ~changes /\ len + first = full -> {0}
            [] OTHER -> {0, first}

Jumps(g, start) == Len(g.coda) = 2 /\ start <= g.coda[1]

SecondFaults(tune, g) ==
  IF ~HasSecond(tune, g) THEN {}
  ELSE (IF g.isDs /\ g.segno = -1 THEN {Fault("NoSegnoForDs", <<g.mark>>)} ELSE {})
       \cup (IF g.isDs /\ Len(g.coda) = 1 THEN {Fault("OnlyOneCoda", <<g.coda[1]>>)} ELSE {})
       \cup (IF Len(g.coda) = 2 /\ g.fine >= 0 /\ g.fine < g.coda[2]
             THEN {Fault("CodaAfterFine", <<g.coda[1], g.coda[2], g.fine>>)} ELSE {})

\* everything that may be reported about a tune
Faults(tune) == CountFaults(tune) \cup Sections(tune).faults \cup SecondFaults(tune, Globals(tune))
\* Fine before the second Coda is no fault where the second pass begins after the first Coda: nothing jumps there
Doubtful(tuneRhythm, tune) ==
  LET g == Globals(tune) IN
    /\ CountFaults(tune) = {} /\ Sections(tune).faults = {}
    /\ HasSecond(tune, g) /\ (g.isDs => g.segno >= 0)
    /\ Len(g.coda) = 2 /\ g.fine >= 0 /\ g.fine < g.coda[2]
    /\ \E s \in Starts(tuneRhythm, tune, g) : ~Jumps(g, s)

---------------------------------------------------------------------------
(* The order of play, a sequence of stretches <<from, to>> *)
RECURSIVE MergeFrom(_, _, _)
MergeFrom(done, rest, k) ==
  IF k > Len(rest) THEN done
  ELSE LET x == rest[k] IN
    IF x[1] >= x[2] THEN MergeFrom(done, rest, k + 1)
    ELSE IF done # <<>> /\ Last(done)[2] = x[1]
         THEN MergeFrom([done EXCEPT ![Len(done)] = <<@[1], x[2]>>], rest, k + 1)
         ELSE MergeFrom(Append(done, x), rest, k + 1)
Merge(stretches) == MergeFrom(<<>>, stretches, 1)

RECURSIVE Concat(_, _)
Concat(ss, k) == IF k > Len(ss) THEN <<>> ELSE ss[k] \o Concat(ss, k + 1)

EndingAt(sec, k) == <<sec.at[k], IF k = Len(sec.at) THEN sec.e ELSE sec.at[k + 1]>>
InFull(sec) ==
  CASE sec.k = "once" -> <<<<sec.s, sec.e>>>>
    [] sec.k = "twice" -> <<<<sec.s, sec.e>>, <<sec.s, sec.e>>>>
    [] sec.k = "endings" ->
         Concat([k \in 1 .. Len(sec.at) |-> <<<<sec.s, sec.at[1]>>, EndingAt(sec, k)>>], 1)
\* the section without its repetition, with the last ending only
Straight(sec) ==
  IF sec.k = "endings" THEN <<<<sec.s, sec.at[1]>>, EndingAt(sec, Len(sec.at))>> ELSE <<<<sec.s, sec.e>>>>

Cut(x, a, b) == <<IF x[1] > a THEN x[1] ELSE a, IF x[2] < b THEN x[2] ELSE b>>
CutAll(xs, a, b) == [k \in DOMAIN xs |-> Cut(xs[k], a, b)]

FirstPass(secs, upTo) == Concat([k \in DOMAIN secs |-> CutAll(InFull(secs[k]), 0, upTo)], 1)
\* everything laid out straight, seen through the windows that the second pass leaves open
StraightThrough(secs, a, b) == Concat([k \in DOMAIN secs |-> CutAll(Straight(secs[k]), a, b)], 1)

SecondPass(secs, g, start) ==
  LET stop == IF g.fine >= 0 THEN g.fine ELSE End IN
    IF Jumps(g, start)
    THEN StraightThrough(secs, start, g.coda[1]) \o StraightThrough(secs, g.coda[2], stop)
    ELSE StraightThrough(secs, start, stop)
\* the same when marks that the player does not come across have no effect: Fine before the start, marks in endings left out
InLeftOut(secs, t) == \E k \in DOMAIN secs : secs[k].k = "endings" /\ secs[k].at[1] <= t /\ t < Last(secs[k].at)
Met(secs, g, start) ==
  [g EXCEPT !.fine = IF g.fine >= 0 /\ (g.fine <= start \/ InLeftOut(secs, g.fine)) THEN -1 ELSE @,
            !.coda = IF Len(g.coda) = 2 /\ InLeftOut(secs, g.coda[1]) THEN <<>> ELSE @]

\* all acceptable readings: what is played up to the D.C. or D.S., and what after it
Readings(tuneRhythm, tune) ==
  LET secs == Sections(tune).secs
      g == Globals(tune)
  IN IF ~HasSecond(tune, g) THEN {<<FirstPass(secs, End), <<>>>>}
     ELSE UNION {{<<FirstPass(secs, g.mark), SecondPass(secs, g, s)>>,
                  <<FirstPass(secs, g.mark), SecondPass(secs, Met(secs, g, s), s)>>} : s \in Starts(tuneRhythm, tune, g)}
Plays(tuneRhythm, tune) == {Merge(x[1] \o x[2]) : x \in Readings(tuneRhythm, tune)}

\* what a second pass can come across: of endings the last one only
WithoutSecond(tune) == Merge(StraightThrough(Sections(tune).secs, 0, End))

(* Marks that are accepted although there is no need for them: D.C. starts from the top of a tune without Segno,
   and two Codas make a jump *)
Warnings(tune) ==
  LET g == Globals(tune) IN
    IF g.mark = -1 \/ g.isDs \/ ~HasSecond(tune, g) THEN {}
    ELSE (IF g.segno >= 0 THEN {<<"SegnoAndDc", g.segno, g.mark>>} ELSE {})
         \cup (IF Len(g.coda) = 1 THEN {<<"OrphanCoda", g.coda[1], 0>>} ELSE {})

---------------------------------------------------------------------------
(* The performance: when each stretch begins, and when a tick is reached *)
Length(x) == x[2] - x[1]
RECURSIVE SumTo(_, _)
SumTo(xs, k) == IF k = 0 THEN 0 ELSE Length(xs[k]) + SumTo(xs, k - 1)
BeginsAt(xs, k) == SumTo(xs, k - 1)
RECURSIVE Times(_, _, _)
Times(xs, t, k) == IF k > Len(xs) THEN <<>>
                   ELSE (IF xs[k][1] <= t /\ t < xs[k][2] THEN <<BeginsAt(xs, k) + t - xs[k][1]>> ELSE <<>>) \o Times(xs, t, k + 1)
\* the moments at which tick t is played, in order
Moments(xs, t) == Times(xs, t, 1)
=============================================================================
