------------------------------ MODULE MarksMC ------------------------------
(* The repeat marks of one bar line, added and removed one at a time. Every transition is printed, and executed
   on the real code after the operations that lead to it. *)
EXTENDS Repeat, TLC, Json

VARIABLES on, ops
vars == <<on, ops>>
View == on

Init == on = {} /\ ops = <<>>
Add == \E m \in Marks :
         /\ on' = IF Dislikes[m] \cap on = {} THEN on \cup {m} ELSE on
         /\ ops' = Append(ops, <<"add", m>>)
Rem == \E m \in Marks : on' = on \ {m} /\ ops' = Append(ops, <<"rem", m>>)
Next == Add \/ Rem
Spec == Init /\ [][Next]_vars

AlwaysCompatible == Compatible(on)
AtMostOneEnding == Cardinality(on \cap Endings) <= 1
\* an order of adding exists for every compatible set, and any order will do
AnyOrder == \A a \in on : \A b \in on : a # b => b \notin Dislikes[a]
Symmetric == \A a, b \in Marks : a \in Dislikes[b] <=> b \in Dislikes[a]
FineAndCodaMix == Dislikes["F"] = {} /\ Dislikes["O"] = {}

EmitScript == PrintT("SCRIPT " \o ToJson(<<0, ops'>>))
=============================================================================
