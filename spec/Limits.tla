------------------------------- MODULE Limits -------------------------------
(* Values with a few possibilities only, and what happens at their limits. *)
EXTENDS Integers, Sequences

Values == [iter |-> 1 .. 5,           \* which time a tick is played
           ending |-> 1 .. 4,         \* number of an ending
           channel |-> 0 .. 15, dots |-> 0 .. 7, tuplet |-> 2 .. 255, length |-> 0 .. 7,
           beats |-> 1 .. 99, unit |-> {2, 4, 8, 16, 32, 64},
           velocity |-> 0 .. 127, tempo |-> 1 .. 999,
           key |-> -7 .. 7, octave |-> -2 .. 8, name |-> 0 .. 6]
\* the others are clipped when they are made
Refusing == {"ending", "channel", "dots", "tuplet", "length", "beats", "unit", "octave"}
Defaults == [iter |-> 1, channel |-> 0, dots |-> 0, tuplet |-> 2, length |-> 2, velocity |-> 64, tempo |-> 120, key |-> 0]

Fine(v) == [k |-> "ok", v |-> v]
Refused == [k |-> "err", v |-> 0]
Nearest(s, x) == IF x \in s THEN x ELSE IF \A y \in s : x < y THEN CHOOSE y \in s : \A z \in s : y <= z ELSE CHOOSE y \in s : \A z \in s : z <= y
Make(kind, n) == IF n \in Values[kind] THEN Fine(n)
                 ELSE IF kind \in Refusing THEN Refused
                 ELSE Fine(Nearest(Values[kind], n))
\* made without a check by the caller: what is beyond the limits is refused (by a panic) or becomes something within them
Strict(kind, n, r) == IF n \in Values[kind] THEN r = Fine(n) ELSE r = Refused \/ (r.k = "ok" /\ r.v \in Values[kind])
\* a number in a text: one out of the limits is refused or becomes one within them
ReadOk(kind, n, r) == IF n \in Values[kind] THEN r = Fine(n)
                      ELSE r = Refused \/ (r.k = "ok" /\ r.v \in Values[kind])

Wanted(v, op) == CASE op[1] = "set" -> op[2] [] op[1] = "next" -> v + 1 [] op[1] = "prev" -> v - 1
                   [] op[1] = "add" -> v + op[2] [] op[1] = "sub" -> v - op[2]
\* a step out of the limits is refused and keeps the value
Step(kind, v, op) == IF Wanted(v, op) \in Values[kind] THEN Fine(Wanted(v, op)) ELSE Refused

---------------------------------------------------------------------------
(* What has a name is what the name says, and what nothing is said of is the usual *)
UpTo(n) == [j \in 1 .. n + 1 |-> j - 1]
Named ==
  [numbers |-> [dots |-> UpTo(7), sharps |-> UpTo(7), flats |-> UpTo(7), velocity |-> <<0, 127, 0, 127>>, tempo |-> <<1, 999, 1, 999>>,
                octave |-> <<-2, 8, -2, 8>>, percent |-> <<0, 2000, 0, 1000>>, pitch |-> <<0, 127>>, beats |-> <<1, 99>>,
                duration |-> <<7, 2, 255, 7, 240>>, iter |-> <<5>>],
   lists |-> [octave |-> [j \in 1 .. 11 |-> j - 3], name |-> UpTo(6), key |-> [j \in 1 .. 15 |-> j - 8], unit |-> <<2, 4, 8, 16, 32, 64>>],
   fresh |-> [note |-> <<0, 240, 0, 64, 0, 0, 0>>, duration |-> <<2, 2, 0>>, tempo |-> <<0, 120>>, rhythm |-> <<4, 4>>, grid |-> 60, marks |-> 0, pitch |-> 81,
              trims |-> <<<<0, 0, 0, 0>>, <<0, 0, 0, 0>>>>, rates |-> <<<<1000, 1000, 1000, 1000>>, <<1000, 1000, 1000, 1000>>>>],
   marks |-> <<<<"S", "|:">>, <<"E", ":|">>, <<"C", "D.C.">>, <<"F", "Fine">>, <<"D", "D.S.">>, <<"G", "Segno">>, <<"O", "Coda">>,
               <<"1", "Var1">>, <<"2", "Var2">>, <<"3", "Var3">>, <<"4", "Var4">>>>]

\* the first of the equal ones
First(s, j) == CHOOSE m \in 1 .. j : s[m] = s[j] /\ \A q \in 1 .. m - 1 : s[q] # s[j]
=============================================================================
