------------------------------ MODULE TupleMC ------------------------------
(* A selection of notes grows note by note, and is made a tuplet of, once and again. *)
EXTENDS Tuple, TLC, Json

CONSTANTS MaxNotes, MaxPlace, Choice
Values ==
  CASE Choice = "plain" -> {<<o, 2, 0>> : o \in {1, 2, 3, 4}}
    [] Choice = "dotted" -> {<<2, 2, 0>>, <<2, 2, 1>>, <<3, 2, 0>>, <<4, 2, 2>>}
    [] Choice = "again" -> {<<2, 3, 0>>, <<3, 5, 0>>, <<2, 2, 0>>}
    [] Choice = "extreme" -> {<<0, 2, 0>>, <<7, 2, 0>>, <<0, 2, 7>>, <<6, 255, 3>>}
VARIABLES sel, made, first      \* first: the selection before
vars == <<sel, made, first>>

Init == sel = <<>> /\ made = 0 /\ first = <<>>
Add == /\ made = 0 /\ Len(sel) < MaxNotes
       /\ \E x \in 0 .. MaxPlace, d \in Values :
            \* notes in any order of time; the name tells them apart
            sel' = Append(sel, [t |-> 100 * x, d |-> d, name |-> Len(sel)])
       /\ UNCHANGED <<made, first>>
Make == /\ made < 2 /\ sel # <<>> /\ sel' = Tuplet(sel) /\ made' = made + 1 /\ first' = IF made = 0 THEN sel ELSE first
Next == Add \/ Make
Spec == Init /\ [][Next]_vars

MakeKeeps == [][made' > made =>
  /\ Len(sel') = Len(sel)
  /\ \A k \in DOMAIN sel : sel'[k].name = sel[k].name /\ sel'[k].d[1] = sel[k].d[1] /\ sel'[k].d[3] = sel[k].d[3]
  /\ \A a, b \in DOMAIN sel : /\ sel[a].t = sel[b].t => sel'[a].t = sel'[b].t
                              /\ sel[a].t < sel[b].t => sel'[a].t <= sel'[b].t
  /\ (CHOOSE x \in StartsOf(sel) : \A y \in StartsOf(sel) : x <= y) = (CHOOSE x \in StartsOf(sel') : \A y \in StartsOf(sel') : x <= y)]_vars
AgainSame == [][(made = 1 /\ made' = 2 /\ Distinct(first)) => sel' = sel]_vars
EqualInTwo == [][(made = 0 /\ made' = 1 /\ Len(sel) >= 2 /\ Cardinality(StartsOf(sel)) = Len(sel)
                   /\ \A a, b \in DOMAIN sel : Written(sel[a].d) = Written(sel[b].d)) =>
                  \A k \in DOMAIN sel' : sel'[k].d[2] = Len(sel)]_vars
NumberOk == made > 0 => \A k \in DOMAIN sel : sel[k].d[2] \in 2 .. 255

EmitScript == (made = 0 /\ made' = 0 /\ Len(sel') = MaxNotes) => PrintT("SCRIPT " \o ToJson(<<0, [k \in DOMAIN sel' |-> <<sel'[k].t, sel'[k].d>>]>>))
=============================================================================
