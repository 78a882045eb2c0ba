------------------------------ MODULE RepeatMC ------------------------------
(* A tune is written bar line by bar line, and then a player plays it, walking from bar line to bar line and
   deciding at each what a musician decides there. The player knows nothing of the sections that Repeat!Read finds
   nor of the windows of Repeat!SecondPass; what it plays has to be the order of play that Repeat!Plays lays out.

   Every tune is printed, and rendered by the real code. *)
EXTENDS Repeat, TLC, Json

CONSTANTS Alphabet,    \* the sets of marks a bar line may carry
          MaxBars, Pickups   \* number of bar lines; ticks of the first one

VARIABLES
  tune, rd,          \* the bar lines so far, and what the reader of sections makes of them
  ph,                \* "write", "first", "second", "done"
  at,                \* the bar line the player is at; 0 is the top of the tune
  heard,             \* the stretches played
  from, count, open, \* the repeat that is open: where it began, how often it has been played, whether there is one
  inEnd,             \* the player is in an ending
  jumped             \* the jump from Coda to Coda is done
vars == <<tune, rd, ph, at, heard, from, count, open, inEnd, jumped>>

Full == 960
R44 == <<4, 4>>
N == Len(tune)
TickAt(k) == IF k = 0 THEN 0 ELSE IF k > N THEN End ELSE tune[k].t
MarksAt(k) == IF k = 0 \/ k > N THEN {} ELSE tune[k].m

Sets ==
  CASE Alphabet = "sections" -> {{}, {"S"}, {"E"}, {"S", "E"}, {"1"}, {"2"}, {"3"}}
    [] Alphabet = "endings" -> {{}, {"S"}, {"1"}, {"2"}, {"3"}, {"4"}}
    [] Alphabet = "global" -> {{}, {"S"}, {"E"}, {"1"}, {"2"}, {"C"}, {"D"}, {"G"}, {"O"}, {"F"}}
    [] Alphabet = "mixed" -> {{}, {"S"}, {"1"}, {"2"}, {"D"}, {"E", "C"}, {"E", "D"}, {"G", "S"}, {"E", "F"}, {"E", "O"}, {"O"}, {"F", "1"},
                              {"O", "2"}, {"G", "O"}, {"F", "C"}}

Init == /\ tune = <<>> /\ rd = Reader0 /\ ph = "write" /\ at = 0 /\ heard = <<>>
        /\ from = 0 /\ count = 0 /\ open = TRUE /\ inEnd = FALSE /\ jumped = FALSE

Write ==
  /\ ph = "write" /\ N < MaxBars
  /\ \E m \in Sets, first \in (IF tune = <<>> THEN Pickups ELSE {0}) :
       LET b == [t |-> IF tune = <<>> THEN first ELSE Last(tune).t + Full, m |-> m, r |-> <<>>] IN
         /\ tune' = Append(tune, b)
         /\ rd' = Read(rd, b)
  /\ UNCHANGED <<ph, at, heard, from, count, open, inEnd, jumped>>

G == Globals(tune)
\* tunes the player can play without doubt what is meant
Playable ==
  /\ Faults(tune) = {}
  /\ HasSecond(tune, G) => Cardinality(Starts(R44, tune, G)) = 1

Begin ==
  /\ ph = "write" /\ Playable
  /\ ph' = "first"
  /\ UNCHANGED <<tune, rd, at, heard, from, count, open, inEnd, jumped>>

---------------------------------------------------------------------------
\* the bar line k with ending n, searched from bar line a on
RECURSIVE Seek(_, _)
Seek(n, k) == IF k > N THEN k ELSE IF EndingNo(MarksAt(k)) = n THEN k ELSE Seek(n, k + 1)
\* the first bar line from k on that carries no ending
RECURSIVE SeekPlain(_)
SeekPlain(k) == IF k > N \/ EndingNo(MarksAt(k)) = 0 THEN k ELSE SeekPlain(k + 1)
Hear(k) == Append(heard, <<TickAt(k), TickAt(k + 1)>>)

\* The player has come to bar line k playing; what now? It may go on from some other bar line j, with its memory of the repeat changed.
\* To go on from j means to play from j to the next bar line.
GoOn(j, f, c, o, e) ==
  /\ at' = j + 1 /\ heard' = Hear(j)
  /\ from' = f /\ count' = c /\ open' = o /\ inEnd' = e
  /\ UNCHANGED <<tune, rd, jumped>>
  /\ ph' = IF j + 1 > N THEN "done" ELSE ph

\* the D.C./D.S. is obeyed once everything else at its bar line is
TurnBack == MarksAt(at) \cap {"C", "D"} # {} /\ HasSecond(tune, G)
SecondStart == CHOOSE s \in Starts(R44, tune, G) : TRUE
BarAt(t) == IF t = 0 THEN 0 ELSE CHOOSE k \in 1 .. N : TickAt(k) = t

First ==
  /\ ph = "first"
  /\ LET m == MarksAt(at)
         n == EndingNo(m)
         starts == "S" \in m
         leave == /\ ~TurnBack
                  /\ IF starts THEN GoOn(at, at, 0, TRUE, FALSE) ELSE GoOn(at, at, 0, FALSE, FALSE)
         turn == /\ TurnBack /\ ph' = "second" /\ at' = BarAt(SecondStart)
                 /\ inEnd' = FALSE
                 /\ UNCHANGED <<tune, rd, heard, from, count, open, jumped>>
     IN CASE at = 0 -> GoOn(0, from, count, open, inEnd)                                   \* the beginning
          [] at > 0 /\ "E" \in m /\ count = 0 -> GoOn(from, from, 1, TRUE, FALSE)          \* back to the start of the repeat
          [] at > 0 /\ "E" \in m /\ count > 0 -> leave \/ turn
          [] at > 0 /\ n > 0 /\ open ->
               IF n > count + 1 /\ inEnd THEN GoOn(from, from, count + 1, TRUE, FALSE)      \* the ending is over: once more
               ELSE LET j == IF n = count + 1 THEN at ELSE Seek(count + 1, at) IN GoOn(j, from, count, TRUE, TRUE)
          [] at > 0 /\ inEnd /\ n = 0 -> leave \/ turn                                      \* the last ending is over
          [] at > 0 /\ ~inEnd /\ starts -> leave \/ turn                                    \* a repeat opens
          [] OTHER -> \/ (~TurnBack /\ GoOn(at, from, count, open, inEnd))
                      \/ turn

\* Whether the endings at bar line k belong to a section: it opened where a start mark is the latest mark that opens or closes one,
\* or at the top of the tune.
RECURSIVE Latest(_)
Latest(k) == IF k = 0 THEN 0 ELSE IF MarksAt(k) \cap ({"S", "E"} \cup Endings) # {} THEN k ELSE Latest(k - 1)
RECURSIVE RunBegin(_)
RunBegin(k) == IF k > 1 /\ EndingNo(MarksAt(k - 1)) > 0 THEN RunBegin(k - 1) ELSE k
Active(k) == LET j == Latest(RunBegin(k) - 1) IN j = 0 \/ "S" \in MarksAt(j)
\* the last ending of the run that k is in
LastOf(k) == LET n == EndingNo(MarksAt(SeekPlain(k) - 1)) IN CHOOSE j \in k .. SeekPlain(k) - 1 : EndingNo(MarksAt(j)) = n /\ \A x \in k .. j - 1 : EndingNo(MarksAt(x)) # n

Second ==
  /\ ph = "second"
  /\ LET m == MarksAt(at)
         n == EndingNo(m)
         stop == "F" \in m
         jump == "O" \in m /\ ~jumped /\ Len(G.coda) = 2 /\ G.coda[1] = TickAt(at)
         j == IF n > 0 /\ Active(at) /\ ~inEnd THEN LastOf(at) ELSE at
     IN CASE stop -> ph' = "done" /\ UNCHANGED <<tune, rd, at, heard, from, count, open, inEnd, jumped>>
          [] ~stop /\ jump -> /\ jumped' = TRUE /\ at' = BarAt(G.coda[2]) /\ inEnd' = FALSE
                             /\ UNCHANGED <<tune, rd, ph, heard, from, count, open>>
          \* over to the last ending, where there may be marks again
          [] ~stop /\ ~jump /\ j # at -> /\ at' = j /\ inEnd' = TRUE
                                       /\ UNCHANGED <<tune, rd, ph, heard, from, count, open, jumped>>
          [] OTHER -> GoOn(at, from, count, open, n > 0 /\ Active(at))

Next == Write \/ Begin \/ First \/ Second
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* What has to hold *)
PlayedIsLaidOut == ph = "done" => Merge(heard) \in Plays(R44, tune)
\* marks the player did not come across in places it plays in both readings leave only one order of play
NoFaultNoAlarm == (ph = "write" /\ rd.faults = {} /\ rd.mode \in {"top", "plain"}) => Sections(tune).faults = {}
\* sections follow each other without a gap up to where the reader is
Covered == ph = "write" =>
  /\ \A k \in DOMAIN rd.secs : rd.secs[k].s = (IF k = 1 THEN 0 ELSE rd.secs[k - 1].e) /\ rd.secs[k].s <= rd.secs[k].e
  /\ rd.secs # <<>> => Last(rd.secs).e = rd.from
\* without D.C. and D.S.: what lies outside of repeated sections is played once
OnceEach ==
  (ph = "done" /\ ~HasSecond(tune, G)) =>
    \A k \in DOMAIN rd.secs :
      LET x == rd.secs[k] IN
        (x.s < x.e) =>
          Cardinality({j \in DOMAIN heard : heard[j][1] <= x.s /\ x.s < heard[j][2]}) =
            (CASE x.k = "once" -> 1 [] x.k = "twice" -> 2 [] x.k = "endings" -> IF x.s = x.at[1] THEN 1 ELSE Len(x.at))
\* nothing is played without end
Terminates == Len(heard) <= 10 * (MaxBars + 1)
\* the player never gets stuck
Decides == ph \in {"first", "second"} => ENABLED (First \/ Second)

\* the timeline: the k-th moment of a tick comes after the one before it
Ordered == ph = "done" =>
  \A k \in 0 .. N : LET ms == Moments(Merge(heard), TickAt(k)) IN \A x \in 1 .. Len(ms) - 1 : ms[x] < ms[x + 1]

\* the second pass plays nothing twice and nothing but what is left when all but the last endings are taken out
Inside(xs, t) == \E k \in DOMAIN xs : xs[k][1] <= t /\ t < xs[k][2]
SecondWithin == ph = "done" =>
  \A x \in Readings(R44, tune) : \A k \in 0 .. N :
    /\ Inside(x[2], TickAt(k)) => Inside(WithoutSecond(tune), TickAt(k))
    /\ Len(Moments(Merge(x[2]), TickAt(k))) <= 1
\* there is nothing to warn of without D.C.
WarnsOfDc == ph = "done" => (Warnings(tune) # {} => \E k \in DOMAIN tune : "C" \in tune[k].m)

EmitScript == (ph = "write" /\ ph' = "write" /\ N' >= 1) =>
  PrintT("SCRIPT " \o ToJson(<<R44, [k \in 1 .. Len(tune') |-> <<tune'[k].t, tune'[k].m>>]>>))
=============================================================================
