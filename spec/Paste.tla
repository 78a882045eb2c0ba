------------------------------- MODULE Paste -------------------------------
(* Pasting: all items move by one and the same amount, the earliest to the given tick.
   An item is <<kind, tick, the rest>>; ticks are numbers of any size (BigNat). *)
EXTENDS BigNat

Earliest(items) == LET T == {items[k][2] : k \in DOMAIN items} IN CHOOSE x \in T : \A y \in T : BigLeq(x, y)
Shifted(x, from, to) == IF BigLeq(from, to) THEN BigAdd(x, BigSub(to, from)) ELSE BigSub(x, BigSub(from, to))
PasteAt(items, to) ==
  IF items = <<>> THEN items
  ELSE LET from == Earliest(items) IN [k \in DOMAIN items |-> <<items[k][1], Shifted(items[k][2], from, to), items[k][3]>>]
=============================================================================
