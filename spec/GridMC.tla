------------------------------- MODULE GridMC -------------------------------
(* A position dragged about and snapped to the grid. *)
EXTENDS Music, TLC, Json

CONSTANTS MaxGrid, MaxPos
VARIABLES g, t, snapped
vars == <<g, t, snapped>>
Init == g \in 1 .. MaxGrid /\ t = 0 /\ snapped = TRUE
Drag == \E d \in {-1, 1} : t + d \in -MaxPos .. MaxPos /\ t' = t + d /\ snapped' = FALSE /\ UNCHANGED g
DoSnap == t' = Snap(t, g) /\ snapped' = TRUE /\ UNCHANGED g
Next == Drag \/ DoSnap
Spec == Init /\ [][Next]_vars
OnLine == snapped => OnGrid(t, g)
SnapNearest == Nearest(Snap(t, g), t, g)
NoneNearer == \A k \in -MaxPos .. MaxPos : Abs(k * g - t) >= Abs(Snap(t, g) - t)
Symmetric == Snap(-t, g) = -Snap(t, g)
Stable == OnGrid(t, g) => Snap(t, g) = t
=============================================================================
