---------------------------- MODULE ProjectTrace ----------------------------
(***************************************************************************)
(* Checks histories recorded from the real project store against Project.  *)
(*                                                                         *)
(* Every line of the trace is an operation with what could be observed     *)
(* right after it. The state of this specification is the position in the  *)
(* trace and the undo history: a sequence of lines of the trace, whose     *)
(* observations are the projects that undo and redo must lead to. For the  *)
(* effect of an edit the observation before it is taken as the starting    *)
(* point, so that each property is decided on its own.                     *)
(***************************************************************************)
EXTENDS Project, BigNat, TLC, Json, IOUtils

CONSTANT Prop          \* the property to be decided: "P01" .. "P08"

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Starts == {"open", "query"}
Known == Starts \cup Edits \cup {"noop", "undo", "redo", "reopen"}

VARIABLES
  i,        \* the line of the trace
  hist,     \* the lines at which the projects along the undo history were observed
  pos,      \* the present position in hist
  low,      \* the lowest position that can be reached by undo
  reopened, \* the project was closed and opened again
  bad       \* what is wrong with line i, or ""
vars == <<i, hist, pos, low, reopened, bad>>

Obs(j) == Trace[j].o
ProjectOf(o) == [n |-> BagOf(o.n), b |-> o.b, t |-> o.t, d |-> o.d, f |-> o.f, r |-> o.r, k |-> o.k, g |-> o.g]
\* notes are recorded in a canonical order, so that this is equality of bags; w: every item is filed under its own tick
Same(o, q) == (q.w => o.w) /\ o.n = q.n /\ o.b = q.b /\ o.t = q.t /\ o.d = q.d /\ o.f = q.f /\ o.r = q.r /\ o.k = q.k /\ o.g = q.g
Limit == IF Trace[hist[1]].op = "open" THEN Trace[hist[1]].v[1] ELSE 0

---------------------------------------------------------------------------
(* History *)
IsEdit(l) == l.op \in Edits
CanUndo(ps, lo) == ps > lo
CanRedo(h, ps) == ps < Len(h)

\* the history after line j
NewPos(l) == CASE IsEdit(l) -> pos + 1
               [] l.op = "undo" /\ CanUndo(pos, low) -> pos - 1
               [] l.op = "redo" /\ CanRedo(hist, pos) -> pos + 1
               [] OTHER -> pos
NewHist(l, j) == IF IsEdit(l) THEN Append(SubSeq(hist, 1, pos), j) ELSE hist
\* at most Limit edits can be undone
NewLow(l) == IF IsEdit(l) /\ pos + 1 - Limit > low THEN pos + 1 - Limit ELSE low

P01Bad(l, j) ==
  IF l.op = "undo" THEN
    CASE l.p # "" -> "undo crashed"
      [] ~Same(l.o, Obs(hist[NewPos(l)])) -> "undo did not restore the project"
      [] l.cu # CanUndo(NewPos(l), low) -> "undo is offered wrongly after undo"
      [] OTHER -> ""
  ELSE IF l.p # "" THEN ""
  ELSE IF l.cu # CanUndo(NewPos(l), NewLow(l)) THEN "undo is offered wrongly"
  ELSE ""

P02Bad(l, j) ==
  IF l.op = "redo" THEN
    CASE l.p # "" -> "redo crashed"
      [] ~Same(l.o, Obs(hist[NewPos(l)])) -> "redo did not reinstate the project"
      [] l.cr # CanRedo(hist, NewPos(l)) -> "redo is offered wrongly after redo"
      [] OTHER -> ""
  ELSE IF l.p # "" THEN ""
  ELSE IF l.cr # CanRedo(NewHist(l, j), NewPos(l)) THEN "redo is offered wrongly"
  ELSE ""

P03Bad(l, j) ==
  IF l.op = "reopen" THEN
    CASE l.p # "" -> "opening the project again failed"
      [] ~Same(l.o, Obs(j - 1)) -> "the reopened project differs from the closed one"
      [] l.cu # Trace[j - 1].cu -> "undo is offered differently after reopening"
      [] l.cr # Trace[j - 1].cr -> "redo is offered differently after reopening"
      [] OTHER -> ""
  ELSE IF ~reopened THEN ""
  ELSE IF "w" \notin DOMAIN l THEN ""
  ELSE IF l.p # "" THEN "crash that does not happen without reopening"
  ELSE IF ~Same(l.o, l.w.o) \/ l.cu # l.w.cu \/ l.cr # l.w.cr THEN "the history continues differently after reopening"
  ELSE ""

---------------------------------------------------------------------------
(* Edits *)
P04Bad(l, j) ==
  IF IsEdit(l) \/ l.op = "noop" THEN
    IF l.p # "" THEN "the edit crashed"
    ELSE LET x == Raw(ProjectOf(Obs(j - 1)), l.op, l.a, l.r, l.v)
             y == ProjectOf(l.o)
             len == Len(x.b)
         IN CASE ~l.o.w -> "an item is filed under a wrong tick"
              [] y.n # x.n -> "notes"
              [] y.t # x.t -> "tempos"
              [] y.d # x.d -> "damper pedal"
              [] y.f # x.f -> "soft pedal"
              [] y.r # x.r -> "rhythm"
              [] y.k # x.k -> "key"
              [] y.g # x.g -> "grid"
              [] l.op \notin Replenishing /\ y.b # x.b -> "bar lines"
              [] l.op \in Replenishing /\
                 ~ (Len(y.b) >= len /\ SubSeq(y.b, 1, len) = x.b /\ \A m \in len + 1 .. Len(y.b) : IsPlain(y.b[m]))
                 -> "bar lines named or existing"
              [] l.op = "noop" /\ (l.cu # Trace[j - 1].cu \/ l.cr # Trace[j - 1].cr) -> "history changed by an edit that does nothing"
              [] OTHER -> ""
  ELSE ""

P05Bad(l, j) ==
  IF l.op \in Replenishing /\ l.p # "" THEN "the edit crashed"
  ELSE IF IsEdit(l) /\ l.p = "" THEN
    LET x == Raw(ProjectOf(Obs(j - 1)), l.op, l.a, l.r, l.v)
        z == [ProjectOf(l.o) EXCEPT !.b = x.b]
    IN CASE l.op \in Replenishing /\ ~Covered(ProjectOf(l.o)) -> "content is not covered by bar lines"
         [] l.op \in Replenishing /\ l.o.b # Replenish(z).b -> "bar lines are not the ones needed"
         [] l.op \notin Replenishing /\ l.o.b # x.b -> "bar lines changed"
         [] OTHER -> ""
  ELSE ""

---------------------------------------------------------------------------
(* Queries *)
InForce(p, t) == <<TempoAt(p, t), DumperAt(p, t), SoftAt(p, t), RhythmAt(p, t)[1], RhythmAt(p, t)[2], KeyAt(p, t)>>
P06Bad(l, j) ==
  IF l.op = "query" /\ l.p # "" THEN "query crashed"
  ELSE IF l.p # "" \/ "q" \notin DOMAIN l THEN ""
  ELSE LET wrong == {m \in DOMAIN l.q :
                       LET q == l.q[m] IN
                         \/ q.p # ""
                         \/ LET f == InForce(l.o, q.t) IN q.x # f \/ q.y # SubSeq(f, 1, 3)}
       IN IF wrong = {} THEN "" ELSE "in force at tick " \o ToString(l.q[MaxOf(wrong)].t)

Overflow == [k |-> "overflow", t |-> <<>>]
FitTick(t) == IF BigLeq(t, MaxTick) THEN [k |-> "ok", t |-> t] ELSE Overflow
\* the tick of a location
TickOf(p, bar, off) ==
  LET nb == Len(p.b) IN
  FitTick(BigAdd(off,
    IF bar = <<>> THEN <<>>
    ELSE IF BigLeq(bar, BigOf(nb)) THEN
           BigOf(p.b[Digit(bar, 1) + 1000 * Digit(bar, 2)].t)
    ELSE BigAdd(BigOf(LastTick(p.b)),
                BigMulSmall(BigSub(bar, BigOf(nb)), TickLen(RhythmAt(p, LastTick(p.b)))))))
\* the location of a tick
BarNoAt(p, tick) == Cardinality({m \in DOMAIN p.b : BigLeq(BigOf(p.b[m].t), tick)})
LocBad(p, q) ==
  IF q.p # "" THEN TRUE
  ELSE CASE q.q = "tick" ->
              LET no == BarNoAt(p, q.t)
                  from == IF no = 0 THEN <<>> ELSE BigOf(p.b[no].t)
              IN ~ (q.b = BigOf(no) /\ BigAdd(from, q.f) = q.t /\ q.x = [k |-> "ok", t |-> q.t])
         [] q.q = "loc" -> q.x # TickOf(p, q.b, q.f)
         [] q.q = "no" -> LET at == {m \in DOMAIN p.b : BigOf(p.b[m].t) = q.t}
                          IN q.n # (IF at = {} THEN <<>> ELSE <<MaxOf(at) - 1>>)
P07Bad(l, j) ==
  IF l.op = "query" /\ l.p # "" THEN "query crashed"
  ELSE IF l.p # "" \/ "l" \notin DOMAIN l THEN ""
  ELSE LET wrong == {m \in DOMAIN l.l : LocBad(l.o, l.l[m])}
       IN IF wrong = {} THEN "" ELSE "location query " \o ToString(MaxOf(wrong))

---------------------------------------------------------------------------
(* Notifications *)
Repo(o, x) == IF x = "n" THEN BagOf(o.n) ELSE o[x]
Hear(x, s, es) == IF x = "n" THEN HearAllNotes(s, es) ELSE HearAllKeyed(s, es)
\* the items an edit adds and that are still there afterwards are announced with the selection request of the edit
Announced(l, x) ==
  \A m \in DOMAIN l.a[x] :
    LET it == l.a[x][m] IN
      (it \in Elems(l.o[x])) =>
        \E e \in DOMAIN l.ev[x] : it \in Elems(l.ev[x][e].a) /\ l.ev[x][e].s = l.s
P08Bad(l, j) ==
  IF l.p = "" /\ "ep" \in DOMAIN l /\ l.ep # "" THEN "the notifications cannot be read: " \o l.ep
  ELSE IF l.p # "" THEN "crashed, so that nothing is announced"
  ELSE IF "ev" \notin DOMAIN l THEN ""
  ELSE LET before == Obs(j - 1 - l.es)       \* where the listener was when the notifications were last cleared
           wrong == {x \in Repos : Hear(x, Repo(before, x), l.ev[x]) # Repo(l.o, x)}
           \* repositories that the operation neither names nor changes
           noisy == {x \in Repos : l.es = 0 /\ before[x] = l.o[x] /\ IsEdit(l) /\ l.a[x] = <<>> /\ l.r[x] = <<>> /\
                       \E e \in DOMAIN l.ev[x] : Hear(x, Repo(before, x), <<l.ev[x][e]>>) # Repo(before, x)}
           mute == {x \in Repos : IsEdit(l) /\ l.s # 0 /\ ~Announced(l, x)}
           \* a request to select that the edit did not make
           invented == {x \in Repos : l.es = 0 /\ IsEdit(l) /\ l.s % 10 # 1 /\ \E e \in DOMAIN l.ev[x] : l.ev[x][e].s % 10 = 1}
       IN CASE l.op # "reopen" /\ wrong # {} -> "a listener ends up with other contents: " \o ToString(wrong)
            [] l.op # "reopen" /\ noisy # {} -> "notification without a change: " \o ToString(noisy)
            [] l.op # "reopen" /\ invented # {} -> "selection request nobody made: " \o ToString(invented)
            [] mute # {} -> "selection request lost: " \o ToString(mute)
            [] OTHER -> ""

---------------------------------------------------------------------------
BadAt(l, j) ==
  CASE Prop = "P01" -> P01Bad(l, j) [] Prop = "P02" -> P02Bad(l, j) [] Prop = "P03" -> P03Bad(l, j)
    [] Prop = "P04" -> P04Bad(l, j) [] Prop = "P05" -> P05Bad(l, j) [] Prop = "P06" -> P06Bad(l, j)
    [] Prop = "P07" -> P07Bad(l, j) [] Prop = "P08" -> P08Bad(l, j)

\* the collections and settings a store shows are those of its project
Hides(l) == Prop \in {"P04", "P06"} /\ l.p = "" /\ "z" \in DOMAIN l /\ ~l.z

FirstBad(l, j) ==
  CASE l.op = "open" /\ l.p # "" -> "a new project cannot be opened"
    [] l.op = "open" /\ l.p = "" /\ ProjectOf(l.o) # EmptyProject -> "a new project is not empty"
    [] l.op = "open" /\ l.p = "" /\ Prop = "P01" /\ l.cu -> "undo offered on a new project"
    [] l.op = "open" /\ l.p = "" /\ Prop = "P02" /\ l.cr -> "redo offered on a new project"
    [] l.op = "query" /\ Prop = "P06" -> P06Bad(l, j)
    [] l.op = "query" /\ Prop = "P07" -> P07Bad(l, j)
    [] l.op = "query" /\ Prop = "P08" /\ l.p # "" -> "a command crashed"
    [] l.op = "query" /\ Prop = "P08" /\ "ev" \in DOMAIN l ->
         LET wrong == {x \in Repos : Hear(x, Repo(l.was, x), l.ev[x]) # Repo(l.o, x)}
         IN IF wrong = {} THEN "" ELSE "a listener of a project ends up with other contents: " \o ToString(wrong)
    [] OTHER -> ""

Init ==
  /\ i \in {j \in 1 .. N : Trace[j].op \in Starts}
  /\ hist = <<i>> /\ pos = 1 /\ low = 1 /\ reopened = FALSE
  /\ bad = FirstBad(Trace[i], i)

Step ==
  /\ bad = ""
  /\ i < N
  /\ LET l == Trace[i + 1] IN
       /\ l.op \in Known \ Starts
       /\ Trace[i].p = ""
       /\ i' = i + 1
       /\ hist' = NewHist(l, i + 1)
       /\ pos' = NewPos(l)
       /\ low' = NewLow(l)
       /\ reopened' = (reopened \/ l.op = "reopen")
       /\ bad' = IF Hides(l) THEN "the store shows something else than the project" ELSE BadAt(l, i + 1)

Spec == Init /\ [][Step]_vars

Conforms == bad = ""
=============================================================================
