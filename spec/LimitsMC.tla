------------------------------ MODULE LimitsMC ------------------------------
(* A value with limits is stepped about. *)
EXTENDS Limits, TLC, Json

CONSTANTS Kind, MaxOps        \* "iter", "ending", "octave" or "name"
VARIABLES v0, v, ops, last
vars == <<v0, v, ops, last>>

Moves == {<<x, d>> : x \in {"add", "sub"}, d \in {-11, -10, -6, -1, 0, 1, 2, 6, 10, 11, 2147000000}}
Ops == CASE Kind = "iter" -> {<<"set", n>> : n \in {0, 1, 2, 4, 5, 6, 128, 255}}
         [] Kind = "ending" -> {<<"next">>, <<"prev">>}
         [] OTHER -> Moves
\* a name is not moved beyond the ends of its octave
Askable(op) == Kind = "name" => Step(Kind, v, op).k = "ok"
Init == v0 \in Values[Kind] /\ v = v0 /\ ops = <<>> /\ last = Fine(v0)
Next == /\ Len(ops) < MaxOps
        /\ \E op \in Ops : /\ Askable(op)
                           /\ last' = Step(Kind, v, op)
                           /\ v' = IF last'.k = "ok" THEN last'.v ELSE v
                           /\ ops' = Append(ops, op)
        /\ UNCHANGED v0
Spec == Init /\ [][Next]_vars
View == <<v, Len(ops)>>

Within == v \in Values[Kind]
MakeAgain == Make(Kind, v) = Fine(v)
MakeWithin == \A n \in -20 .. 1100 : Make(Kind, n).k = "ok" => Make(Kind, n).v \in Values[Kind]
OneWay == \A op \in Ops : op[1] = "next" /\ Step(Kind, v, op).k = "ok" => Step(Kind, v + 1, <<"prev">>) = Fine(v)
RefusedKeeps == [][last'.k = "err" => v' = v]_vars

EmitScript == PrintT("SCRIPT " \o ToJson(<<v0, ops'>>))
=============================================================================
