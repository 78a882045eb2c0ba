----------------------------- MODULE ProjectMC -----------------------------
(***************************************************************************)
(* The project store as a state machine: edits are recorded as commands    *)
(* (what was added, what was removed), undo and redo run the commands      *)
(* backwards and forwards, and opening a project replays them from the     *)
(* empty project. TLC checks that this design keeps the promises of the    *)
(* properties in every state, and prints every transition together with    *)
(* a history that leads to it; these are then executed on the real store.  *)
(***************************************************************************)
EXTENDS Project, TLC, Json

CONSTANTS
  Menu,       \* which edits are explored: "history", "edits", "bars", "settings" or "refill"
  MaxSteps,   \* length of the histories
  Limit       \* how many edits can be undone

VARIABLES
  cur,        \* the project
  log,        \* the commands, undone ones included
  pos,        \* how many of them are in effect
  low,        \* how many of them can no longer be undone
  snaps,      \* what the project was like: snaps[k + 1] after k commands
  ops,        \* how we came here
  act         \* the last operation, for the properties about transitions
vars == <<cur, log, pos, low, snaps, ops, act>>

---------------------------------------------------------------------------
(* Items *)
Note(start, ord, voice) == [i |-> <<start, ord, voice>>, s |-> start, e |-> start + (960 \div (2 ^ ord))]
Bar(t, r, k) == [t |-> t, r |-> r, k |-> k, m |-> ""]
Ev(t, v) == [t |-> t, v |-> v]
N1(x) == [NoItems EXCEPT !.n = <<x>>]
B1(x) == [NoItems EXCEPT !.b = <<x>>]
T1(x) == [NoItems EXCEPT !.t = <<x>>]
D1(x) == [NoItems EXCEPT !.d = <<x>>]
F1(x) == [NoItems EXCEPT !.f = <<x>>]
Op(op, a, r, v) == [op |-> op, a |-> a, r |-> r, v |-> v]

NotesOf(p) == BagToSet(p.n)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
\* each note as often as it is there
RECURSIVE Copies(_, _)
Copies(x, k) == IF k = 0 THEN <<>> ELSE <<x>> \o Copies(x, k - 1)
RECURSIVE FlatN(_, _)
FlatN(p, S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN Copies(x, p.n[x]) \o FlatN(p, S \ {x})

AllOf(p) == [n |-> FlatN(p, NotesOf(p)), b |-> p.b, t |-> p.t, d |-> p.d, f |-> p.f]

HistoryMenu(p) ==
  {Op("add", N1(Note(0, 2, 1)), NoItems, <<>>),
   Op("add", T1(Ev(960, 90)), NoItems, <<>>),
   Op("set_rhythm", NoItems, NoItems, <<3, 4>>)}
  \cup (IF p.b # <<>> THEN {Op("bulk_remove", NoItems, AllOf(p), <<>>)} ELSE {})
  \cup {Op("change", T1(Ev(1920, x.v)), T1(x), <<>>) : x \in Elems(p.t)}

EditsMenu(p) ==
  {Op("add", N1(x), NoItems, <<>>) : x \in {Note(0, 2, 1), Note(0, 2, 2), Note(900, 0, 1), Note(1920, 3, 1)}}
  \cup {Op("add", T1(x), NoItems, <<>>) : x \in {Ev(0, 90), Ev(0, 100), Ev(960, 90)}}
  \cup {Op("add", D1(x), NoItems, <<>>) : x \in {Ev(960, 127), Ev(0, 0), Ev(960, 1)}}
  \cup {Op("add", F1(x), NoItems, <<>>) : x \in {Ev(961, 127), Ev(0, 5)}}
  \cup {Op("addbar", B1(x), NoItems, <<>>) : x \in {Bar(960, <<>>, <<>>), Bar(720, <<3, 4>>, <<>>), Bar(0, <<2, 4>>, <<2>>)}}
  \cup {Op("bulk_add", [n |-> <<Note(0, 2, 1), Note(0, 2, 1)>>, b |-> <<Bar(960, <<5, 4>>, <<>>)>>,
                        t |-> <<Ev(480, 60), Ev(480, 61)>>, d |-> <<Ev(960, 3)>>, f |-> <<Ev(2000, 3)>>], NoItems, <<>>),
        Op("bulk_add", NoItems, NoItems, <<>>),
        Op("set_rhythm", NoItems, NoItems, <<3, 4>>),
        Op("set_key", NoItems, NoItems, <<-3>>)}
  \cup {Op("bulk_remove", NoItems, AllOf(p), <<>>)}
  \cup {Op("bulk_remove", NoItems, N1(x), <<>>) : x \in NotesOf(p)}
  \cup {Op("bulk_remove", NoItems, B1(x), <<>>) : x \in Elems(p.b)}
  \cup {Op("bulk_remove", NoItems, [NoItems EXCEPT !.t = p.t, !.d = p.d], <<>>)}
  \cup {Op("change", N1(Note(x.i[1] + 240, x.i[2], x.i[3])), N1(x), <<>>) : x \in NotesOf(p)}
  \* all the notes at once: alike ones stay alike, or they all become alike
  \cup (IF \E x \in NotesOf(p) : p.n[x] > 1 THEN
         LET q == FlatN(p, NotesOf(p)) IN
         {Op("change", [NoItems EXCEPT !.n = [m \in DOMAIN q |-> Note(q[m].i[1] + 240, q[m].i[2], q[m].i[3])]], [NoItems EXCEPT !.n = q], <<>>),
          Op("change", [NoItems EXCEPT !.n = [m \in DOMAIN q |-> Note(480, 2, 1)]], [NoItems EXCEPT !.n = q], <<>>)} ELSE {})
  \cup {Op("change", T1(Ev(960, x.v)), T1(x), <<>>) : x \in Elems(p.t)}
  \cup {Op("change", D1(Ev(x.t + 960, x.v)), D1(x), <<>>) : x \in Elems(p.d)}
  \* everything moves by the distance between two items: what comes lands where something goes
  \cup (IF Len(p.b) > 1 THEN
         {Op("change", [NoItems EXCEPT !.b = [m \in DOMAIN p.b |-> Bar(p.b[m].t + p.b[2].t - p.b[1].t, p.b[m].r, p.b[m].k)]],
                       [NoItems EXCEPT !.b = p.b], <<>>),
          Op("change", B1(Bar(p.b[2].t, p.b[1].r, <<1>>)), B1(p.b[1]), <<>>)} ELSE {})
  \cup (IF Len(p.t) > 1 THEN
         {Op("change", [NoItems EXCEPT !.t = <<Ev(p.t[2].t, p.t[1].v), Ev(p.t[1].t, p.t[2].v)>>],
                       [NoItems EXCEPT !.t = <<p.t[1], p.t[2]>>], <<>>),
          Op("change", [NoItems EXCEPT !.t = <<Ev(480, p.t[1].v), Ev(480, p.t[2].v)>>],
                       [NoItems EXCEPT !.t = <<p.t[1], p.t[2]>>], <<>>)} ELSE {})

BarsMenu(p) ==
  {Op("addbar", B1(x), NoItems, <<>>) : x \in {Bar(t, r, k) : t \in {0, 480, 960, 1440}, r \in {<<>>, <<3, 4>>, <<2, 4>>}, k \in {<<>>, <<1>>}}}
  \cup {Op("add", N1(x), NoItems, <<>>) : x \in {Note(0, 0, 1), Note(1200, 1, 1), Note(2880, 4, 1)}}
  \cup {Op("add", T1(x), NoItems, <<>>) : x \in {Ev(0, 90), Ev(960, 90), Ev(2401, 90)}}
  \cup {Op("set_rhythm", NoItems, NoItems, <<7, 8>>)}
  \cup {Op("bulk_remove", NoItems, B1(x), <<>>) : x \in Elems(p.b)}

\* the settings of the project, and a first bar line that has its own
SettingsMenu(p) ==
  {Op("set_rhythm", NoItems, NoItems, x) : x \in {<<3, 4>>, <<6, 8>>}}
  \cup {Op("set_key", NoItems, NoItems, x) : x \in {<<-3>>, <<1>>}}
  \cup {Op("set_grid", NoItems, NoItems, x) : x \in {<<60>>, <<7>>}}
  \cup {Op("addbar", B1(Bar(0, <<5, 4>>, <<2>>)), NoItems, <<>>)}
  \cup {Op("bulk_remove", NoItems, B1(x), <<>>) : x \in Elems(p.b)}

\* what there is stays where it is, bar lines go, and edits that replace something bring them back
RefillMenu(p) ==
  LET one(x) == <<Ev(960, x)>> IN
  IF p.n = EmptyBag /\ p.t = <<>> /\ p.d = <<>> /\ p.f = <<>> THEN
    {Op("bulk_add", [NoItems EXCEPT !.n = <<Note(480, 1, 1)>>, !.t = one(90), !.d = one(5), !.f = one(6)], NoItems, <<>>)}
  ELSE (IF p.b # <<>> THEN {Op("bulk_remove", NoItems, [NoItems EXCEPT !.b = p.b], <<>>)} ELSE {})
    \cup {Op("add", x, NoItems, <<>>) : x \in {N1(Note(480, 1, 1)), [NoItems EXCEPT !.t = one(91)], [NoItems EXCEPT !.d = one(7)],
                                               [NoItems EXCEPT !.f = one(8)]}}
    \cup {Op("bulk_add", [NoItems EXCEPT !.t = one(92), !.d = one(9), !.f = one(10)], NoItems, <<>>)}
    \cup (IF p.n # EmptyBag THEN {Op("change", N1(Note(480, 1, 2)), N1(CHOOSE x \in NotesOf(p) : TRUE), <<>>)} ELSE {})
    \cup {Op("change", [NoItems EXCEPT !.t = one(93), !.d = one(11), !.f = one(12)], [NoItems EXCEPT !.t = p.t, !.d = p.d, !.f = p.f], <<>>)}

\* two items of each kind; one edit names them in either order and puts them at any of three ticks,
\* one upon the other, upon itself, in the place of the other
Pair(v, w) == <<Ev(960, v), Ev(1920, w)>>
MovesFirst ==
  Op("bulk_add", [n |-> <<Note(240, 2, 1), Note(240, 2, 1), Note(480, 2, 2)>>, b |-> <<Bar(960, <<3, 4>>, <<>>), Bar(1920, <<>>, <<2>>)>>,
                  t |-> Pair(90, 100), d |-> Pair(1, 2), f |-> Pair(3, 4)], NoItems, <<>>)
At(x, t) == [x EXCEPT !.t = t]
MovesMenu(p) ==
  IF p.t # Pair(90, 100) \/ p.d # Pair(1, 2) \/ p.f # Pair(3, 4) \/ Len(p.b) # 2 \/ p.n # BagOf(MovesFirst.a.n) THEN {}
  ELSE LET T == {960, 1920, 2880}
           orders(s) == {s, <<s[2], s[1]>>}
           \* as they are, or with the other's values
           new(q, i, j, sw) == IF sw THEN <<At(q[2], i), At(q[1], j)>> ELSE <<At(q[1], i), At(q[2], j)>>
       IN {Op("change", [NoItems EXCEPT ![k] = new(q, i, j, sw)], [NoItems EXCEPT ![k] = q], <<>>) :
             k \in {"t"}, q \in orders(p.t), i \in T, j \in T, sw \in BOOLEAN}
          \cup {Op("change", [NoItems EXCEPT ![k] = new(q, i, j, sw)], [NoItems EXCEPT ![k] = q], <<>>) :
             k \in {"b"}, q \in orders(p.b), i \in T, j \in T, sw \in BOOLEAN}
          \cup {Op("change", [NoItems EXCEPT ![k] = new(q, i, j, sw)], [NoItems EXCEPT ![k] = q], <<>>) :
             k \in {"d"}, q \in orders(p.d), i \in T, j \in T, sw \in BOOLEAN}
          \cup {Op("change", [NoItems EXCEPT ![k] = new(q, i, j, sw)], [NoItems EXCEPT ![k] = q], <<>>) :
             k \in {"f"}, q \in orders(p.f), i \in T, j \in T, sw \in BOOLEAN}
          \* several of a tick added at once, over what is there
          \cup {Op("bulk_add", [NoItems EXCEPT !.b = <<Bar(i, <<2, 4>>, <<>>), Bar(j, <<>>, <<-1>>)>>, !.t = <<Ev(i, 50), Ev(j, 51)>>,
                                               !.d = <<Ev(i, 52), Ev(j, 53)>>, !.f = <<Ev(i, 54), Ev(j, 55)>>], NoItems, <<>>) : i \in T, j \in T}
          \cup {Op("bulk_remove", NoItems, [NoItems EXCEPT !.t = <<p.t[i]>>, !.d = <<p.d[j]>>, !.f = <<p.f[i]>>, !.b = <<p.b[j]>>], <<>>) : i \in 1 .. 2, j \in 1 .. 2}
          \* notes of which two are alike, to the same or to different ones
          \cup {Op("change", [NoItems EXCEPT !.n = <<Note(i, 2, 1), Note(j, 2, 1)>>], [NoItems EXCEPT !.n = <<Note(240, 2, 1), x>>], <<>>) :
             i \in {240, 480}, j \in {240, 480, 960}, x \in {Note(240, 2, 1), Note(480, 2, 2)}}

MenuAt(p) == CASE Menu = "moves" -> MovesMenu(p) [] Menu = "settings" -> SettingsMenu(p) [] Menu = "refill" -> RefillMenu(p) [] Menu = "history" -> HistoryMenu(p) [] Menu = "edits" -> EditsMenu(p) [] Menu = "bars" -> BarsMenu(p)

---------------------------------------------------------------------------
(* Commands *)
\* What an edit takes away: the items named and whatever is replaced
Gone(s, rem, a) == SelectSeq(s, LAMBDA x : x.t \in TicksOf(rem) \cup TicksOf(a))
Command(p, o) ==
  IF o.op \in SettingEdits THEN
    LET x == CASE o.op = "set_rhythm" -> "r" [] o.op = "set_key" -> "k" [] o.op = "set_grid" -> "g"
    IN [kind |-> "set", x |-> x, from |-> p[x], to |-> IF o.op = "set_rhythm" THEN o.v ELSE o.v[1]]
  ELSE LET raw == Raw(p, o.op, o.a, o.r, o.v)
           ext == IF o.op \in Replenishing THEN Extension(raw) ELSE <<>>
           added(x) == Put(<<>>, o.a[x])
       IN [kind |-> "items",
           a |-> [n |-> o.a.n, b |-> added("b") \o ext, t |-> added("t"), d |-> added("d"), f |-> added("f")],
           r |-> [n |-> o.r.n] @@ [x \in Keyed |-> Gone(p[x], o.r[x], o.a[x])]]
Forward(p, c) ==
  IF c.kind = "set" THEN [p EXCEPT ![c.x] = c.to]
  ELSE [p EXCEPT !.n = ReplaceBag(@, c.r.n, c.a.n), !.b = Replace(@, c.r.b, c.a.b), !.t = Replace(@, c.r.t, c.a.t),
                 !.d = Replace(@, c.r.d, c.a.d), !.f = Replace(@, c.r.f, c.a.f)]
Backward(p, c) ==
  IF c.kind = "set" THEN [p EXCEPT ![c.x] = c.from]
  ELSE [p EXCEPT !.n = ReplaceBag(@, c.a.n, c.r.n), !.b = Replace(@, c.a.b, c.r.b), !.t = Replace(@, c.a.t, c.r.t),
                 !.d = Replace(@, c.a.d, c.r.d), !.f = Replace(@, c.a.f, c.r.f)]
RECURSIVE Replay(_, _)
Replay(p, cs) == IF cs = <<>> THEN p ELSE Replay(Forward(p, Head(cs)), Tail(cs))

---------------------------------------------------------------------------
\* the refill menu begins with content without bar lines
Preset ==
  IF Menu = "moves" THEN <<MovesFirst>>
  ELSE IF Menu # "refill" THEN <<>>
  ELSE LET o1 == CHOOSE o \in RefillMenu(EmptyProject) : TRUE
           p1 == Forward(EmptyProject, Command(EmptyProject, o1))
       IN <<o1, Op("bulk_remove", NoItems, [NoItems EXCEPT !.b = p1.b], <<>>)>>
RECURSIVE Play(_, _)
Play(p, os) == IF os = <<>> THEN <<>>
               ELSE LET c == Command(p, Head(os)) q == Forward(p, c) IN <<[c |-> c, p |-> q]>> \o Play(q, Tail(os))
Init ==
  LET begun == Play(EmptyProject, Preset) n == Len(begun) IN
  /\ cur = IF n = 0 THEN EmptyProject ELSE begun[n].p
  /\ log = [j \in 1 .. n |-> begun[j].c] /\ pos = n /\ low = 0
  /\ snaps = <<EmptyProject>> \o [j \in 1 .. n |-> begun[j].p] /\ ops = Preset
  /\ act = Op("open", NoItems, NoItems, <<>>)

Did(o) == ops' = Append(ops, o) /\ act' = o

Edit ==
  \E o \in MenuAt(cur) :
    LET c == Command(cur, o) IN
      /\ cur' = Forward(cur, c)
      /\ log' = Append(SubSeq(log, 1, pos), c)
      /\ pos' = pos + 1
      /\ low' = IF pos' - Limit > low THEN pos' - Limit ELSE low
      /\ snaps' = Append(SubSeq(snaps, 1, pos + 1), cur')
      /\ Did(o)

Undo ==
  /\ cur' = IF pos > low THEN Backward(cur, log[pos]) ELSE cur
  /\ pos' = IF pos > low THEN pos - 1 ELSE pos
  /\ Did(Op("undo", NoItems, NoItems, <<>>))
  /\ UNCHANGED <<log, low, snaps>>

Redo ==
  /\ cur' = IF pos < Len(log) THEN Forward(cur, log[pos + 1]) ELSE cur
  /\ pos' = IF pos < Len(log) THEN pos + 1 ELSE pos
  /\ Did(Op("redo", NoItems, NoItems, <<>>))
  /\ UNCHANGED <<log, low, snaps>>

\* Only the commands survive; the project is made of them.
Reopen ==
  /\ cur' = Replay(EmptyProject, SubSeq(log, 1, pos))
  /\ Did(Op("reopen", NoItems, NoItems, <<>>))
  /\ UNCHANGED <<log, pos, low, snaps>>

Next ==
  /\ Len(ops) < MaxSteps
  /\ \/ Edit
     \/ Undo
     \/ Redo
     \/ Reopen

Spec == Init /\ [][Next]_vars
\* what comes after an operation of another kind is another behaviour
View == <<cur, log, pos, low, Len(ops), IF act.op \in {"undo", "redo", "reopen"} THEN act.op ELSE "edit">>

---------------------------------------------------------------------------
(* P01, P02: wherever we are in the history, the project is what it was there *)
HistoryFaithful == cur = snaps[pos + 1] /\ Len(snaps) = Len(log) + 1
\* any number of undos and as many redos is the identity
RECURSIVE Back(_, _), Fore(_, _)
Back(p, k) == IF k = pos - low THEN p ELSE Back(Backward(p, log[pos - k]), k + 1)
Fore(p, k) == IF k = pos THEN p ELSE Fore(Forward(p, log[k + 1]), k + 1)
UndoRedoIdentity == Fore(Back(cur, 0), low) = cur /\ Back(cur, 0) = snaps[low + 1]
(* P03 *)
ReopenFaithful == Replay(EmptyProject, SubSeq(log, 1, pos)) = cur
UndoLimit == pos - low <= Limit /\ low <= pos
(* P04 *)
Shape == WellFormed(cur)
EditExact == [][act'.op \in Edits =>
                  LET x == Raw(cur, act'.op, act'.a, act'.r, act'.v) IN
                    /\ \A y \in {"n", "t", "d", "f", "r", "k", "g"} : cur'[y] = x[y]
                    /\ Elems(x.b) \subseteq Elems(cur'.b)
                    /\ \A z \in Elems(cur'.b) \ Elems(x.b) : IsPlain(z) /\ z.t > LastTick(x.b)]_vars
(* P05 *)
EditCovers == [][act'.op \in Replenishing =>
                  /\ Covered(cur')
                  /\ LET x == Raw(cur, act'.op, act'.a, act'.r, act'.v) IN
                       \* minimal: the line before the last added one does not cover the content
                       Len(cur'.b) > Len(x.b) => (IF Len(cur'.b) = 1 THEN 0 ELSE cur'.b[Len(cur'.b) - 1].t) < ContentEnd(cur')]_vars
NewEditForgetsRedo == [][act'.op \in Edits => Len(log') = pos']_vars

---------------------------------------------------------------------------
(* Behaviours for the harness *)
ScriptItems(m) ==
  [n |-> [j \in DOMAIN m.n |-> m.n[j].i],
   b |-> [j \in DOMAIN m.b |-> <<m.b[j].t, IF m.b[j].r = <<>> THEN 0 ELSE m.b[j].r[1], IF m.b[j].k = <<>> THEN 9 ELSE m.b[j].k[1]>>],
   t |-> [j \in DOMAIN m.t |-> <<m.t[j].t, m.t[j].v>>],
   d |-> [j \in DOMAIN m.d |-> <<m.d[j].t, m.d[j].v>>],
   f |-> [j \in DOMAIN m.f |-> <<m.f[j].t, m.f[j].v>>]]
ScriptOp(o) == [op |-> o.op, a |-> ScriptItems(o.a), r |-> ScriptItems(o.r), v |-> o.v]
EmitScript == PrintT("SCRIPT " \o ToJson(<<Limit, [j \in DOMAIN ops' |-> ScriptOp(ops'[j])]>>))
=============================================================================
