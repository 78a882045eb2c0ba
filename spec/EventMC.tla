------------------------------ MODULE EventMC ------------------------------
(* A tempo, a bar line or a pedal event, moved and changed step by step. *)
EXTENDS Music, TLC, Json

CONSTANTS Kind, MaxOps      \* "tempo", "bar", "pedal"
VARIABLES e0, e, ops, last
vars == <<e0, e, ops, last>>

Firsts == {[t |-> t, v |-> v] : t \in {0, 5, 960}, v \in (IF Kind = "tempo" THEN {1, 2, 120, 998, 999} ELSE {64})}
Ops == {<<"move", d>> : d \in {-961, -960, -6, -5, -1, 0, 1, 240}} \cup
       (IF Kind = "tempo" THEN {<<"up">>, <<"down">>} \cup {<<"drag", d, v>> : d \in {-5, 0, 7}, v \in {-100000, -3, -1, 0, 1, 3, 998, 100000}}
        ELSE {<<"drag", d, 0>> : d \in {-5, 0, 7}})
Askable(x, op) == op[1] = "drag" => x.t + op[2] >= 0

Init == e0 \in Firsts /\ e = e0 /\ ops = <<>> /\ last = Ok(e0)
Next == /\ Len(ops) < MaxOps
        /\ \E op \in Ops : /\ Askable(e, op)
                           /\ last' = EventOp(e, op)
                           /\ e' = IF last'.k = "ok" THEN last'.v ELSE e
                           /\ ops' = Append(ops, op)
        /\ UNCHANGED e0
Spec == Init /\ [][Next]_vars
View == <<e, Len(ops)>>

Valid == e.t >= 0 /\ (Kind = "tempo" => e.v \in 1 .. 999)
OneStep == [][ops'[Len(ops')][1] \in {"up", "down"} => (Abs(e'.v - e.v) = 1 \/ (last'.k = "err" /\ e.v \in {1, 999}))]_vars
StopsAtLimits == [][ops'[Len(ops')][1] = "drag" => last'.k = "ok"]_vars

EmitScript == PrintT("SCRIPT " \o ToJson(<<e0, ops'>>))
=============================================================================
