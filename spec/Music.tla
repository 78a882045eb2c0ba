------------------------------- MODULE Music -------------------------------
(* Notes and events as values: pitches, written durations, trims, ties, rhythms, the grid. *)
EXTENDS Integers, Sequences, FiniteSets, BigNat

Abs(x) == IF x < 0 THEN -x ELSE x
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Err == [k |-> "err"]
Ok(v) == [k |-> "ok", v |-> v]

---------------------------------------------------------------------------
(* Pitch: name 0..6 for C D E F G A B, octave -2..8, accidental *)
Accidentals == {"", "#", "##", "b", "bb", "n"}
Shift == [x \in Accidentals |-> CASE x = "#" -> 1 [] x = "##" -> 2 [] x = "b" -> -1 [] x = "bb" -> -2 [] OTHER -> 0]
Semitones == <<0, 2, 4, 5, 7, 9, 11>>
Pitches == [s : 0 .. 6, o : -2 .. 8, a : Accidentals]
KeyNo(p) == Semitones[p.s + 1] + 12 * (p.o + 2) + Shift[p.a]
Staff(p) == p.s + 7 * (p.o + 2)
AtStaff(n, a) == [s |-> n % 7, o |-> (n \div 7) - 2, a |-> a]
Low == [k |-> "low"]
High == [k |-> "high"]
\* a pitch, or the direction in which it is out of the MIDI range
Judge(p) == IF KeyNo(p) < 0 THEN Low ELSE IF KeyNo(p) > 127 THEN High ELSE Ok(p)
Step(p, d) ==
  LET n == Staff(p) + d IN IF n < 0 THEN Low ELSE IF n > 76 THEN High ELSE Judge(AtStaff(n, p.a))
Toggle(p, which) ==
  LET next == CASE which = "#" -> (CASE p.a = "#" -> "##" [] p.a = "##" -> "" [] OTHER -> "#")
                [] which = "b" -> (CASE p.a = "b" -> "bb" [] p.a = "bb" -> "" [] OTHER -> "b")
                [] which = "n" -> IF p.a = "n" THEN "" ELSE "n"
  IN Judge([p EXCEPT !.a = next])
\* the names a key signature alters: by fifths from F up, or from B down
Fifths == <<3, 0, 4, 1, 5, 2, 6>>
Altered(key) == IF key >= 0 THEN {Fifths[j] : j \in 1 .. Clip(key, 0, 7)} ELSE {Fifths[8 - j] : j \in 1 .. Clip(-key, 0, 7)}
InKey(p, key) == IF p.a = "" /\ p.s \in Altered(key) THEN Judge([p EXCEPT !.a = IF key > 0 THEN "#" ELSE "b"]) ELSE Ok(p)

---------------------------------------------------------------------------
(* Written durations: value 0 (whole) .. 7 (128th), tuplet number from 2 (none), dots 0..7; in whole ticks *)
RECURSIVE Halved(_, _)
Halved(x, n) == IF n = 0 THEN x ELSE Halved(x \div 2, n - 1)
Plain(ord) == Halved(960, ord)
Dotted(len, dots) == 2 * len - Halved(len, dots)
Ticks(d) == (2 * Dotted(Plain(d[1]), d[3])) \div d[2]
BarTicks(n, m) == (960 * n) \div m
RhythmDens == {2, 4, 8, 16, 32, 64}
ValidRhythm(n, m) == n \in 1 .. 99 /\ m \in RhythmDens

---------------------------------------------------------------------------
(* Trims *)
TrimMax == 32767
TrimMin == -32768
Sum4(t) == t[1] + t[2] + t[3] + t[4]
\* as much as possible into the first, what is left into the next
RECURSIVE Fill(_, _, _)
Fill(t, k, d) ==
  IF k > 4 \/ d = 0 THEN t
  ELSE LET x == Clip(t[k] + d, TrimMin, TrimMax) IN Fill([t EXCEPT ![k] = x], k + 1, t[k] + d - x)
Holds(t, d) == Sum4(t) + d \in 4 * TrimMin .. 4 * TrimMax
Sounds(base, t) == IF base + Sum4(t) < 0 THEN 0 ELSE base + Sum4(t)
Loudness(base, t) == Clip(base + Sum4(t), 0, 127)

\* the product of four rates in thousandths is x thousandths; single precision arithmetic rounds a little differently
RateMax == 2000
ProductOf(r) == BigMulSmall(BigMulSmall(BigMulSmall(BigOf(r[1]), r[2]), r[3]), r[4])
IsProduct(x, r) ==
  LET p == ProductOf(r)
      lift(n) == IF n = 0 THEN <<>> ELSE <<0, 0, 0>> \o BigOf(n)
      slack == <<0, 0, 520>>
  IN IF BigLeq(lift(RateMax), p) THEN x = RateMax
     ELSE BigLeq(p, BigAdd(lift(x), slack)) /\ BigLeq(lift(x), BigAdd(p, slack))
Scaled(len, x) == (len * x) \div 1000

---------------------------------------------------------------------------
(* A note: t written start, p pitch, d duration, ti tie and tied, v velocity, st rt vt trims, c channel.
   NoteOp gives what an operation makes of it, Err (or Low, High for pitches) where it is refused. *)
NextTie(ti) == CASE ti = <<0, 0>> -> <<1, 0>> [] ti = <<1, 0>> -> <<0, 1>> [] ti = <<0, 1>> -> <<1, 1>> [] OTHER -> <<0, 0>>
WithPitch(n, r) == IF r.k = "ok" THEN Ok([n EXCEPT !.p = r.v]) ELSE r
NoteOp(n, op) ==
  CASE op[1] = "up" -> WithPitch(n, Step(n.p, 1))
    [] op[1] = "down" -> WithPitch(n, Step(n.p, -1))
    [] op[1] \in {"#", "b", "n"} -> WithPitch(n, Toggle(n.p, op[1]))
    \* dragging: op[2] ticks and op[3] staff positions; callers keep it inside
    [] op[1] = "drag" -> LET r == Step(n.p, op[3]) IN
         IF n.t + op[2] < 0 \/ r.k # "ok" THEN Err ELSE Ok([n EXCEPT !.t = @ + op[2], !.p = r.v])
    [] op[1] = "tie" -> Ok([n EXCEPT !.ti = NextTie(@)])
    [] op[1] = "dots" -> IF op[2] \in -7 .. 7 /\ n.d[3] + op[2] \in 0 .. 7 THEN Ok([n EXCEPT !.d = <<@[1], @[2], @[3] + op[2]>>]) ELSE Err
    \* made anew of its parts
    [] op[1] \in {"new", "build"} -> Ok(n)
    [] op[1] = "dur" -> Ok([n EXCEPT !.d = op[2]])
    [] op[1] = "value" -> Ok([n EXCEPT !.d = <<op[2], @[2], @[3]>>])
    [] op[1] = "move" -> IF n.t + op[2] < 0 THEN Err ELSE Ok([n EXCEPT !.t = @ + op[2]])
    [] op[1] = "trim" -> IF n.t + op[2] < 0 THEN Err ELSE Ok([n EXCEPT !.st = Fill(@, 1, op[2])])

(* An event (bar line, tempo, pedal): t tick, v its value. *)
EventOp(e, op) ==
  CASE op[1] = "move" -> IF e.t + op[2] < 0 THEN Err ELSE Ok([e EXCEPT !.t = @ + op[2]])
    [] op[1] = "new" -> Ok(e)
    [] op[1] = "up" -> IF e.v < 999 THEN Ok([e EXCEPT !.v = @ + 1]) ELSE Err
    [] op[1] = "down" -> IF e.v > 1 THEN Ok([e EXCEPT !.v = @ - 1]) ELSE Err
    \* dragging: op[2] ticks and op[3] beats per minute (tempos only)
    [] op[1] = "drag" -> IF e.t + op[2] < 0 THEN Err
                         ELSE Ok([e EXCEPT !.t = @ + op[2], !.v = IF op[3] = 0 THEN @ ELSE Clip(@ + op[3], 1, 999)])

---------------------------------------------------------------------------
(* The grid *)
OnGrid(x, g) == x % g = 0
Nearest(x, t, g) == OnGrid(x, g) /\ 2 * Abs(x - t) <= g
\* half way between two lines it is the one farther from 0
Snap(t, g) == LET down == (Abs(t) \div g) * g
                  up == down + g
                  x == IF 2 * (Abs(t) - down) >= g THEN up ELSE down
              IN IF t < 0 THEN -x ELSE x
=============================================================================
