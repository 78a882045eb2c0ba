------------------------------ MODULE Project ------------------------------
(***************************************************************************)
(* What a project is and what every operation on it means.                 *)
(*                                                                         *)
(* A project is a record                                                   *)
(*   n        the notes, a bag                                             *)
(*   b,t,d,f  bar lines, tempos, damper and soft pedal events: sequences   *)
(*            in the order of their ticks, at most one item per tick       *)
(*   r,k,g    rhythm <<numerator, denominator>>, key and grid              *)
(* A note is a record with (at least) s, the tick it sounds at, and e, the *)
(* tick it ends at. Every other item has its tick t; a bar line has r and  *)
(* k, sequences of at most one rhythm or key, and m, its repeat marks; the *)
(* other events have their value v.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Bags

Repos == {"n", "b", "t", "d", "f"}
Keyed == {"b", "t", "d", "f"}
NoItems == [n |-> <<>>, b |-> <<>>, t |-> <<>>, d |-> <<>>, f |-> <<>>]

TickLen(r) == (960 * r[1]) \div r[2]
DefaultRhythm == <<4, 4>>
EmptyProject == [n |-> EmptyBag, b |-> <<>>, t |-> <<>>, d |-> <<>>, f |-> <<>>,
                 r |-> DefaultRhythm, k |-> 0, g |-> 60]

Elems(s) == {s[j] : j \in DOMAIN s}
Count(s, x) == Cardinality({j \in DOMAIN s : s[j] = x})
BagOf(s) == [x \in Elems(s) |-> Count(s, x)]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

---------------------------------------------------------------------------
(* Keyed repositories *)
TicksOf(s) == {s[j].t : j \in DOMAIN s}
Ordered(s) == \A j \in 1 .. Len(s) - 1 : s[j].t < s[j + 1].t
Remove(s, rem) == LET T == TicksOf(rem) IN SelectSeq(s, LAMBDA x : x.t \notin T)
Put1(s, x) == SelectSeq(s, LAMBDA y : y.t < x.t) \o <<x>> \o SelectSeq(s, LAMBDA y : y.t > x.t)
RECURSIVE Put(_, _)
Put(s, a) == IF a = <<>> THEN s ELSE Put(Put1(s, Head(a)), Tail(a))   \* the last one at a tick stays
\* All removals come first, then the additions.
Replace(s, rem, a) == Put(Remove(s, rem), a)
ReplaceBag(n, rem, a) == (n (-) BagOf(rem)) (+) BagOf(a)

---------------------------------------------------------------------------
(* What is in force at a tick *)
AtOrBefore(s, tick) == SelectSeq(s, LAMBDA x : x.t <= tick)
LastAt(s, tick, default) ==
  LET q == AtOrBefore(s, tick) IN IF q = <<>> THEN default ELSE q[Len(q)].v
TempoAt(p, tick) == LastAt(p.t, tick, 120)
DumperAt(p, tick) == LastAt(p.d, tick, 0)
SoftAt(p, tick) == LastAt(p.f, tick, 0)
RhythmAt(p, tick) ==
  LET q == SelectSeq(p.b, LAMBDA x : x.t <= tick /\ x.r # <<>>) IN IF q = <<>> THEN p.r ELSE q[Len(q)].r
KeyAt(p, tick) ==
  LET q == SelectSeq(p.b, LAMBDA x : x.t <= tick /\ x.k # <<>>) IN IF q = <<>> THEN p.k ELSE q[Len(q)].k[1]

---------------------------------------------------------------------------
(* Bar lines are added until they cover all content *)
LastTick(s) == IF s = <<>> THEN 0 ELSE s[Len(s)].t
NoteEnd(n) == MaxOf({0} \cup {x.e : x \in BagToSet(n)})
ContentEnd(p) == MaxOf({NoteEnd(p.n), LastTick(p.t), LastTick(p.d), LastTick(p.f)})
PlainBar(tick) == [t |-> tick, r |-> <<>>, k |-> <<>>, m |-> ""]
IsPlain(bar) == bar.r = <<>> /\ bar.k = <<>> /\ bar.m = ""
Extension(p) ==
  LET last == LastTick(p.b)
      len == TickLen(RhythmAt(p, last))
      missing == ContentEnd(p) - last
      num == IF missing <= 0 THEN 0 ELSE (missing + len - 1) \div len
  IN [j \in 1 .. num |-> PlainBar(last + j * len)]
Replenish(p) == [p EXCEPT !.b = @ \o Extension(p)]

---------------------------------------------------------------------------
(* The edits *)
Replenishing == {"add", "tuplize", "bulk_add", "change"}
ItemEdits == Replenishing \cup {"addbar", "bulk_remove"}
SettingEdits == {"set_rhythm", "set_key", "set_grid"}
Edits == ItemEdits \cup SettingEdits

\* Before any bar line is added
Raw(p, op, a, r, v) ==
  CASE op \in ItemEdits ->
         [p EXCEPT !.n = ReplaceBag(@, r.n, a.n), !.b = Replace(@, r.b, a.b), !.t = Replace(@, r.t, a.t),
                   !.d = Replace(@, r.d, a.d), !.f = Replace(@, r.f, a.f)]
    [] op = "set_rhythm" -> [p EXCEPT !.r = v]
    [] op = "set_key" -> [p EXCEPT !.k = v[1]]
    [] op = "set_grid" -> [p EXCEPT !.g = v[1]]
    [] OTHER -> p
Apply(p, op, a, r, v) ==
  IF op \in Replenishing THEN Replenish(Raw(p, op, a, r, v)) ELSE Raw(p, op, a, r, v)

---------------------------------------------------------------------------
(* Well-formedness: what is true of every project *)
WellFormed(p) ==
  /\ \A x \in Keyed : Ordered(p[x])
  /\ IsABag(p.n)
Covered(p) == ContentEnd(p) <= LastTick(p.b) \/ ContentEnd(p) = 0

---------------------------------------------------------------------------
(* Notifications: e is [r |-> items gone, a |-> items that came, c |-> everything is gone] *)
HearKeyed(s, e) == Put(IF e.c THEN <<>> ELSE Remove(s, e.r), e.a)
HearNotes(n, e) == IF e.c THEN BagOf(e.a) ELSE ReplaceBag(n, e.r, e.a)
RECURSIVE HearAllKeyed(_, _), HearAllNotes(_, _)
HearAllKeyed(s, es) == IF es = <<>> THEN s ELSE HearAllKeyed(HearKeyed(s, Head(es)), Tail(es))
HearAllNotes(n, es) == IF es = <<>> THEN n ELSE HearAllNotes(HearNotes(n, Head(es)), Tail(es))
=============================================================================
