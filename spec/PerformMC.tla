----------------------------- MODULE PerformMC -----------------------------
(* A performance of a play order. The order is written stretch by stretch; then it is performed: a clock advances
   and a cursor moves through the stretches. The moments at which the cursor is at a tick have to be those that
   Repeat!Moments computes from the lengths of the stretches, and merging adjacent stretches must not change them. *)
EXTENDS Repeat, TLC, Json

CONSTANTS MaxStretches, MaxTick
VARIABLES order, ph, k, cur, clock, log     \* log[c + 1] is the tick performed at moment c
vars == <<order, ph, k, cur, clock, log>>

Init == order = <<>> /\ ph = "write" /\ k = 1 /\ cur = 0 /\ clock = 0 /\ log = <<>>
Write == /\ ph = "write" /\ Len(order) < MaxStretches
         /\ \E a \in 0 .. MaxTick, b \in 0 .. MaxTick : a <= b /\ order' = Append(order, <<a, b>>)
         /\ UNCHANGED <<ph, k, cur, clock, log>>
Begin == /\ ph = "write" /\ order # <<>>
         /\ ph' = "perform" /\ cur' = order[1][1]
         /\ UNCHANGED <<order, k, clock, log>>
Perform == /\ ph = "perform" /\ k <= Len(order) /\ cur < order[k][2]
           /\ log' = Append(log, cur) /\ clock' = clock + 1 /\ cur' = cur + 1
           /\ UNCHANGED <<order, ph, k>>
Move == /\ ph = "perform" /\ k <= Len(order) /\ cur >= order[k][2]
        /\ k' = k + 1 /\ cur' = IF k < Len(order) THEN order[k + 1][1] ELSE cur
        /\ ph' = IF k = Len(order) THEN "done" ELSE ph
        /\ UNCHANGED <<order, clock, log>>
Next == Write \/ Begin \/ Perform \/ Move
Spec == Init /\ [][Next]_vars

Heard(t) == SelectSeq([c \in 1 .. Len(log) |-> c - 1], LAMBDA c : log[c + 1] = t)
MomentsRight == ph = "done" => \A t \in 0 .. MaxTick : Moments(order, t) = Heard(t)
MergeHarmless == ph = "done" => \A t \in 0 .. MaxTick : Moments(Merge(order), t) = Moments(order, t)
BeginsRight == (ph = "perform" /\ k <= Len(order) /\ cur = order[k][1]) => clock = BeginsAt(order, k)

EmitScript == (ph = "write" /\ ph' = "write") => PrintT("SCRIPT " \o ToJson(<<0, order'>>))
=============================================================================
