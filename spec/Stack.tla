------------------------------- MODULE Stack -------------------------------
(* The undo history in memory: what can be undone, latest last, and what can be redone, next one last. *)
EXTENDS Integers, Sequences

Empty(cap) == [cap |-> cap, undo |-> <<>>, redo |-> <<>>, frozen |-> FALSE, got |-> 0]
Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Latest(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))

\* got: the edit returned, 0 if there is none
StackOp(h, op) ==
  CASE op[1] = "add" -> IF h.frozen THEN [h EXCEPT !.got = 0]
                        ELSE [h EXCEPT !.undo = Latest(Append(@, op[2]), h.cap), !.redo = <<>>, !.got = 0]
    [] op[1] = "undo" -> IF h.undo = <<>> THEN [h EXCEPT !.got = 0]
                         ELSE [h EXCEPT !.got = Top(h.undo), !.redo = Append(@, Top(h.undo)), !.undo = Pop(@)]
    [] op[1] = "redo" -> IF h.redo = <<>> THEN [h EXCEPT !.got = 0]
                         ELSE [h EXCEPT !.got = Top(h.redo), !.undo = Append(@, Top(h.redo)), !.redo = Pop(@)]
    [] op[1] = "freeze" -> [h EXCEPT !.frozen = TRUE, !.got = 0]
    [] op[1] = "thaw" -> [h EXCEPT !.frozen = FALSE, !.got = 0]
=============================================================================
