------------------------------ MODULE PasteMC ------------------------------
(* A copied selection is pasted to several ticks one after the other. *)
EXTENDS Paste, FiniteSets, TLC, Json

CONSTANTS MaxItems, MaxPastes
VARIABLES first, items, ops
vars == <<first, items, ops>>

Ticks == {0, 1, 960, 1500}
KindsOf == <<"n", "b", "t", "d", "f">>
\* one item of a kind at most, in any combination; the position names it
Selections == UNION {{s \in [1 .. n -> {<<j, x>> : j \in 1 .. 5, x \in Ticks}] : \A a, b \in 1 .. n : a < b => s[a][1] < s[b][1]} : n \in 0 .. MaxItems}
Init == \E s \in Selections :
          /\ first = [k \in DOMAIN s |-> <<KindsOf[s[k][1]], BigOf(s[k][2]), "">>]
          /\ items = first /\ ops = <<>>
Next == /\ Len(ops) < MaxPastes
        /\ \E t \in Ticks \cup {3000} : items' = PasteAt(items, BigOf(t)) /\ ops' = Append(ops, t)
        /\ UNCHANGED first
Spec == Init /\ [][Next]_vars

Lands == (ops # <<>> /\ items # <<>>) => Earliest(items) = BigOf(ops[Len(ops)])
Rigid == \A a, b \in DOMAIN items : BigLeq(first[a][2], first[b][2]) =>
           BigLeq(items[a][2], items[b][2]) /\ BigSub(items[b][2], items[a][2]) = BigSub(first[b][2], first[a][2])
\* where it was pasted before does not matter
LastCounts == ops # <<>> => items = PasteAt(first, BigOf(ops[Len(ops)]))
Back == first # <<>> => PasteAt(items, Earliest(first)) = first

EmitScript == PrintT("SCRIPT " \o ToJson(<<[k \in DOMAIN first |-> <<first[k][1], IF first[k][2] = <<>> THEN 0 ELSE IF Len(first[k][2]) = 1 THEN first[k][2][1] ELSE first[k][2][1] + 1000 * first[k][2][2]>>], ops'>>))
=============================================================================
