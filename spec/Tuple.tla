------------------------------- MODULE Tuple -------------------------------
(* Making a tuplet of a selection of notes. A note has t, its written start, d = <<value, tuplet number, dots>>,
   and everything else. *)
EXTENDS Music

\* length of a written value in 256ths of two whole notes
Unit(d) == Dotted(Halved(256, d[1]), d[3])
RECURSIVE Gcd(_, _), GcdAll(_, _, _), SumUp(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
GcdAll(ns, k, g) == IF k > Len(ns) THEN g ELSE GcdAll(ns, k + 1, Gcd(Unit(ns[k].d), g))
SumUp(s, k) == IF k > Len(s) THEN 0 ELSE s[k] + SumUp(s, k + 1)

StartsOf(ns) == {ns[k].t : k \in DOMAIN ns}
\* the starts in their order
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o InOrder(S \ {x})
\* the shortest written value among the notes that begin at a tick
Written(d) == <<d[1], 2, d[3]>>
Shortest(ns, t) ==
  LET D == {Written(ns[k].d) : k \in {j \in DOMAIN ns : ns[j].t = t}}
  IN CHOOSE d \in D : \A e \in D : Ticks(d) < Ticks(e) \/ (Ticks(d) = Ticks(e) /\ Unit(d) <= Unit(e))

Plan(ns) ==
  LET order == InOrder(StartsOf(ns))
      short == [k \in DOMAIN order |-> Shortest(ns, order[k])]
      units == [k \in DOMAIN order |-> Unit(short[k])]
      total == SumUp(units, 1)
      number == total \div GcdAll(ns, 1, 0)
      written == SumUp([k \in DOMAIN order |-> Ticks(short[k])], 1)
      space == (written \div number) * 2          \* as long as two of the parts
      before == [k \in DOMAIN order |-> SumUp(SubSeq(units, 1, k - 1), 1)]
  IN [possible |-> number \in 2 .. 255, number |-> number,
      starts |-> [k \in DOMAIN order |-> [from |-> order[k], to |-> order[1] + (space * before[k]) \div total]]]

\* the notes of the tuplet, note for note
Tuplet(ns) ==
  IF ns = <<>> THEN ns
  ELSE LET p == Plan(ns) IN
    IF ~p.possible THEN ns
    ELSE LET to(t) == (CHOOSE x \in {p.starts[k] : k \in DOMAIN p.starts} : x.from = t).to
         IN [k \in DOMAIN ns |-> [ns[k] EXCEPT !.t = to(ns[k].t), !.d = <<@[1], p.number, @[3]>>]]

\* the starts of a tuplet are distinct, so that it can be made once more
Distinct(ns) == LET p == Plan(ns) IN \A a, b \in DOMAIN p.starts : a # b => p.starts[a].to # p.starts[b].to
=============================================================================
