------------------------------- MODULE NoteMC -------------------------------
(* One note, edited. Every transition is printed and executed on a real note after the edits that lead to it. *)
EXTENDS Music, TLC, Json

CONSTANTS Focus, MaxOps
VARIABLES n0, n, ops, last
vars == <<n0, n, ops, last>>
View == IF Focus = "time" THEN <<n0, n, Len(ops)>> ELSE <<n>>

Middle == [s |-> 5, o |-> 4, a |-> ""]
Plainest == [t |-> 480, p |-> Middle, d |-> <<2, 2, 0>>, ti |-> <<0, 0>>, v |-> 64, st |-> <<0, 0, 0, 0>>,
         rt |-> <<1000, 1000, 1000, 1000>>, vt |-> <<0, 0, 0, 0>>, c |-> 0]
Firsts ==
  CASE Focus = "pitch" -> {[Plainest EXCEPT !.p = p] : p \in {q \in Pitches : Judge(q).k = "ok"}}
    [] Focus = "shape" -> {[Plainest EXCEPT !.d = <<o, m, 0>>] : o \in {0, 2, 7}, m \in {2, 3, 255}}
    [] Focus = "time" -> {[Plainest EXCEPT !.t = t, !.st = st] :
         t \in {0, 10, 200000},
         st \in {<<0, 0, 0, 0>>, <<5, -5, 3, 0>>, <<32767, 0, 0, 0>>, <<32767, 32767, 32767, 32760>>, <<-32768, 10, 0, 0>>,
                 <<-32768, -32768, -32768, -32760>>, <<0, -20, 0, 32767>>}}
Ops ==
  CASE Focus = "pitch" -> {<<"up">>, <<"down">>, <<"#">>, <<"b">>, <<"n">>} \cup
                          {<<"drag", 0, d>> : d \in {-76, -20, -8, -7, -6, -3, -2, -1, 0, 1, 2, 3, 6, 7, 8, 20, 76}}
    [] Focus = "shape" -> {<<"tie">>} \cup {<<"dots", d>> : d \in {-8, -7, -2, -1, 0, 1, 2, 7, 8}} \cup {<<"value", o>> : o \in 0 .. 7}
    [] Focus = "time" -> {<<"move", d>> : d \in {-200000, -11, -10, -1, 0, 1, 480}} \cup
                         {<<"trim", d>> : d \in {-200000, -11, -10, -1, 0, 1, 7, 32767, 40000, 200000}} \cup
                         {<<"drag", d, 0>> : d \in {-10, 0, 240}}

\* a drag that would leave the range is not asked for: it has no way to refuse
Askable(m, op) == op[1] = "drag" => NoteOp(m, op).k = "ok"

Init == n0 \in Firsts /\ n = n0 /\ ops = <<>> /\ last = [k |-> "ok", v |-> n0]
Next == /\ Len(ops) < MaxOps
        /\ \E op \in Ops :
             /\ Askable(n, op)
             /\ last' = NoteOp(n, op)
             /\ n' = IF last'.k = "ok" THEN last'.v ELSE n
             /\ ops' = Append(ops, op)
        /\ UNCHANGED n0
Spec == Init /\ [][Next]_vars

Valid == Judge(n.p).k = "ok" /\ n.d[3] \in 0 .. 7 /\ n.t >= 0 /\ \A j \in 1 .. 4 : n.st[j] \in TrimMin .. TrimMax
UpAndDown == /\ Step(n.p, 1).k = "ok" => Step(Step(n.p, 1).v, -1) = Ok(n.p)
             /\ Step(n.p, -1).k = "ok" => Step(Step(n.p, -1).v, 1) = Ok(n.p)
RECURSIVE Steps(_, _)
Steps(r, d) == IF r.k # "ok" \/ d = 0 THEN r ELSE Steps(Step(r.v, IF d > 0 THEN 1 ELSE -1), IF d > 0 THEN d - 1 ELSE d + 1)
DragIsSteps == \A d \in {-8, -3, -1, 0, 1, 3, 8} : Steps(Ok(n.p), d).k = "ok" => Step(n.p, d) = Steps(Ok(n.p), d)
RECURSIVE Toggles(_, _, _)
Toggles(r, w, c) == IF r.k # "ok" \/ c = 0 THEN r ELSE Toggles(Toggle(r.v, w), w, c - 1)
Cycles == /\ (n.p.a \in {"", "#", "##"} /\ Toggles(Ok(n.p), "#", 3).k = "ok") => Toggles(Ok(n.p), "#", 3) = Ok(n.p)
          /\ (n.p.a \in {"", "b", "bb"} /\ Toggles(Ok(n.p), "b", 3).k = "ok") => Toggles(Ok(n.p), "b", 3) = Ok(n.p)
          /\ n.p.a \in {"", "n"} => Toggles(Ok(n.p), "n", 2) = Ok(n.p)
TiesCycle == NextTie(NextTie(NextTie(NextTie(n.ti)))) = n.ti /\ NextTie(n.ti) # n.ti
KeysNest == \A k \in 0 .. 6 : /\ Altered(k) \subseteq Altered(k + 1) /\ Altered(-k) \subseteq Altered(-k - 1)
                              /\ Cardinality(Altered(k)) = k /\ Cardinality(Altered(-k)) = k
                              /\ Altered(k) \cap Altered(k - 7) = {}
HalfEach == \A o \in 0 .. 6 : Plain(o) \div 2 = Plain(o + 1)
TripletsInTwo == \A o \in 0 .. 4 : 3 * Ticks(<<o, 3, 0>>) = 2 * Plain(o)

TrimExact == [][LET op == ops'[Len(ops')] IN
                (op[1] = "trim" /\ last'.k = "ok") =>
                  /\ n'.t = n.t
                  /\ Holds(n.st, op[2]) => Sum4(n'.st) = Sum4(n.st) + op[2]]_vars
MoveExact == [][LET op == ops'[Len(ops')] IN
                (op[1] = "move" /\ last'.k = "ok") => n' = [n EXCEPT !.t = @ + op[2]]]_vars
RefusedKeeps == [][last'.k # "ok" => n' = n]_vars

EmitScript == PrintT("SCRIPT " \o ToJson(<<n0, ops'>>))
=============================================================================
