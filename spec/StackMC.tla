------------------------------ MODULE StackMC ------------------------------
EXTENDS Stack, FiniteSets, TLC, Json

CONSTANTS Caps, MaxOps
VARIABLES h, ops, added
vars == <<h, ops, added>>

Init == \E c \in Caps : h = Empty(c) /\ ops = <<>> /\ added = 0
Do(op) == h' = StackOp(h, op) /\ ops' = Append(ops, op)
Next == /\ Len(ops) < MaxOps
        /\ \/ Do(<<"add", added + 1>>) /\ added' = added + 1
           \/ \E o \in {"undo", "redo", "freeze", "thaw"} : Do(<<o, 0>>) /\ UNCHANGED added
Spec == Init /\ [][Next]_vars
\* the names of the edits do not matter, their order does
View == <<h, added, Len(ops)>>

Bounded == Len(h.undo) + Len(h.redo) <= h.cap
\* undone edits are younger than those that can still be undone, and the lists are in order
InOrder == LET all == h.undo \o [k \in DOMAIN h.redo |-> h.redo[Len(h.redo) + 1 - k]] IN \A k \in 1 .. Len(all) - 1 : all[k] < all[k + 1]
LifoUndo == [][Top(ops')[1] = "undo" => (IF h.undo = <<>> THEN h'.got = 0 ELSE h'.got = Top(h.undo))]_vars
RedoReturnsUndone == [][(Top(ops')[1] = "redo" /\ ops # <<>> /\ Top(ops)[1] = "undo" /\ h.got # 0) => h'.got = h.got]_vars
FrozenKeeps == [][(h.frozen /\ Top(ops')[1] = "add") => (h'.undo = h.undo /\ h'.redo = h.redo)]_vars
NewestKept == [][(~h.frozen /\ Top(ops')[1] = "add" /\ h.cap > 0) => (Top(h'.undo) = added + 1 /\ h'.redo = <<>>)]_vars

EmitScript == PrintT("SCRIPT " \o ToJson(<<h.cap, ops'>>))
=============================================================================
