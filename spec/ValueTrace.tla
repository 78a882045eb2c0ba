----------------------------- MODULE ValueTrace -----------------------------
(* Checks what the code made of notes, pitches, events, durations, selections, texts, the grid and the
   undo history against their specifications. Every line of the trace is one call or one behaviour of a
   value; the lines do not depend on each other. *)
EXTENDS Tuple, Stack, Input, Paste, Clip, TLC, Json, IOUtils

CONSTANT Prop
L == INSTANCE Limits
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Chunk == 400

VARIABLES i, bad
vars == <<i, bad>>

Elems(s) == {s[j] : j \in DOMAIN s}
Report(l) == l.op \o " of " \o ToString(l.i) \o " gives " \o ToString(l.o)
Unless(ok, l) == IF ok THEN "" ELSE Report(l)

---------------------------------------------------------------------------
(* Notes. A recorded note has, besides its parts, what the code derives from them:
   x = start, length, loudness and product of the length trims, p.v the key and p.n the staff position *)
Bare(n) == [t |-> n.t, p |-> [s |-> n.p.s, o |-> n.p.o, a |-> n.p.a], d |-> n.d, ti |-> n.ti, v |-> n.v, st |-> n.st, rt |-> n.rt, vt |-> n.vt, c |-> n.c]
IsPitch(q, p) == q.s = p.s /\ q.o = p.o /\ q.a = p.a /\ q.v = KeyNo(p) /\ q.n = Staff(p)
Plays(m) == /\ m.x[1] = Sounds(m.t, m.st)
            /\ IsProduct(m.x[4], m.rt)
            /\ m.x[2] = Scaled(Ticks(m.d), m.x[4])
            /\ m.x[3] = Loudness(m.v, m.vt)
\* what follows from the parts, as far as the property speaks of it
Derived(m) ==
  CASE Prop = "P15" -> IsPitch(m.p, m.p)
    [] Prop = "P16" -> Plays(m)
    [] Prop = "P23" -> m.rt = <<1000, 1000, 1000, 1000>> => m.x[2] = Ticks(m.d)
    [] OTHER -> TRUE
\* how a trim is spread over the four trims does not matter
OpOk(before, op, m) ==
  LET want == NoteOp(before, op) IN
  IF op[1] = "trim" /\ want.k = "ok"
  THEN /\ Bare(m) = [before EXCEPT !.st = m.st]
       /\ Holds(before.st, op[2]) => Sum4(m.st) = Sum4(before.st) + op[2]
  ELSE want = Ok(Bare(m))
RECURSIVE NoteBad(_, _, _, _)
NoteBad(cur, ops, obs, k) ==
  IF k > Len(ops) THEN ""
  ELSE LET r == obs[k + 1] IN
    IF r[1] # "ok"
    THEN IF NoteOp(cur, ops[k]).k = r[1] THEN NoteBad(cur, ops, obs, k + 1)
         ELSE ToString(ops[k]) \o " on " \o ToString(cur) \o " is refused: " \o r[1]
    ELSE IF ~OpOk(cur, ops[k], r[2]) THEN ToString(ops[k]) \o " on " \o ToString(cur) \o " gives " \o ToString(Bare(r[2]))
    ELSE IF ~Derived(r[2]) THEN "the note is not what it says: " \o ToString(r[2])
    ELSE NoteBad(Bare(r[2]), ops, obs, k + 1)
NotesBad(l) ==
  CASE Bare(l.o[1][2]) # l.i.n -> "the note is " \o ToString(l.o[1][2])
    [] ~Derived(l.o[1][2]) -> "the note is not what it says: " \o ToString(l.o[1][2])
    [] OTHER -> NoteBad(l.i.n, l.i.ops, l.o, 1)

---------------------------------------------------------------------------
(* P15 *)
Comes(r, want) == r[1] = want.k /\ (want.k = "ok" => IsPitch(r[2], want.v))
Far(p, d) == IF d > 1000 THEN High ELSE IF d < -1000 THEN Low ELSE Step(p, d)
SolfaNames == <<"C", "D", "E", "F", "G", "A", "B">>
PitchOk(p, o) ==
  /\ o.value = KeyNo(p)
  /\ Comes(o.r, Judge(p))
  /\ Judge(p).k = "ok" =>
       /\ Comes(o.up, Step(p, 1)) /\ Comes(o.down, Step(p, -1))
       /\ Comes(o.sharp, Toggle(p, "#")) /\ Comes(o.flat, Toggle(p, "b")) /\ Comes(o.natural, Toggle(p, "n"))
       /\ \A e \in Elems(o.keys) : Comes(e[2], InKey(p, e[1]))
       /\ \A e \in Elems(o.drags) : Comes(e[2], Far(p, e[1]))
OctaveOk(v, o) ==
  /\ o.value = IF v \in -2 .. 8 THEN <<"ok", v>> ELSE <<"err", 0>>
  /\ o.offset = IF v \in 0 .. 10 THEN <<"ok", v - 2>> ELSE <<"err", 0>>
  /\ v \in -2 .. 8 => o.num = <<v, v + 2>>
SolfaOk(v, o) == LET s == Clip(v, 0, 6) IN o = <<s, s, Semitones[s + 1], SolfaNames[s + 1]>>

---------------------------------------------------------------------------
(* P16 *)
TrimOk(t, d, o) ==
  /\ o.same /\ o.t = t
  /\ \A k \in DOMAIN o.sums : o.sums[k] = Sum4(t)
  /\ o.asum = Sum4(o.a)
  /\ Holds(t, d) => o.asum = Sum4(t) + d
RateOk(r, len, o) ==
  /\ o.same /\ o.r = r
  /\ \A k \in DOMAIN o.sums : IsProduct(o.sums[k], r)
  /\ o.len = Scaled(len, o.sums[1])
BigMove(t, d) == IF d >= 0 THEN BigAdd(t, BigOf(d)) ELSE IF BigLeq(BigOf(-d), t) THEN BigSub(t, BigOf(-d)) ELSE <<>>

---------------------------------------------------------------------------
(* P14: the notes of a selection have no order *)
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A x \in Elems(a) : Cardinality({k \in DOMAIN a : a[k] = x}) = Cardinality({k \in DOMAIN b : b[k] = x})
TupleOk(ns, o) ==
  LET bare(s) == [k \in DOMAIN s |-> Bare(s[k])]
      want == Tuplet(bare(ns))
  IN /\ SameBag(bare(o.n), want)
     /\ (ns # <<>> /\ Plan(bare(ns)).possible => Distinct(bare(ns))) => SameBag(bare(o.again), want)

---------------------------------------------------------------------------
(* P17 *)
VersionOf(p) == CASE p[2] = "2" -> <<2>> [] p[2] = "0" -> <<>>
                  [] p[2] = "max" -> <<615, 551, 709, 73, 744, 446, 18>>
                  [] OTHER -> <<5>>
TextOk(p, m, o) ==
  /\ o.k \in Verdicts(p)
  /\ o.t
  /\ o.m = IF o.k = "ok" THEN m ELSE <<>>
  /\ (o.k = "version" /\ ~Glued(p) /\ ~GluedBody(p)) => o.ver = VersionOf(p)

---------------------------------------------------------------------------
(* P18 *)
PasteBad(l) ==
  LET wrong == {k \in DOMAIN l.o : l.o[k] # PasteAt(l.i.m, l.i.to[k])}
  IN IF wrong = {} THEN "" ELSE Report(l)

---------------------------------------------------------------------------
(* P19 *)
Reverse(s) == [k \in DOMAIN s |-> s[Len(s) + 1 - k]]
RECURSIVE StackBad(_, _, _, _)
StackBad(h, ops, obs, k) ==
  IF k > Len(ops) THEN ""
  ELSE LET n == StackOp(h, ops[k])
           o == obs[k]
       IN IF /\ o.got = n.got
             /\ o.u = (n.undo # <<>>) /\ o.r = (n.redo # <<>>)
             /\ o.len = Len(n.undo) + Len(n.redo)
             /\ o.all = Reverse(n.undo \o Reverse(n.redo))
          THEN StackBad(n, ops, obs, k + 1)
          ELSE "capacity " \o ToString(h.cap) \o ", after " \o ToString(SubSeq(ops, 1, k)) \o ": " \o ToString(o) \o " instead of " \o ToString(n)

---------------------------------------------------------------------------
(* P20 *)
GridOk(g, from, o) ==
  \A j \in DOMAIN o : Nearest(o[j], from + j - 1, g) /\ o[j] = -o[Len(o) + 1 - j]
BigDiff(a, b) == IF BigLeq(a, b) THEN BigSub(b, a) ELSE BigSub(a, b)
\* distance of two numbers with signs
Distance(a, b) == IF a[1] = b[1] THEN BigDiff(a[2], b[2]) ELSE BigAdd(a[2], b[2])
SnapOk(g, t, o) ==
  /\ BigMul(g, o.k) = o.o[2]
  /\ BigLeq(BigMulSmall(Distance(o.o, t), 2), g)
  /\ o.m[2] = o.o[2] /\ (o.o[2] # <<>> => o.m[1] = 1 - o.o[1])
GridTextOk(s, o) ==
  IF IsUnsigned(s, U32Max) /\ StripZeros(Unsigned(s)) # <<>>
  THEN o = <<"ok", LimbsOf(Unsigned(s)), StripZeros(Unsigned(s))>>
  ELSE o = <<"err">>

---------------------------------------------------------------------------
(* P21 *)
RECURSIVE InputBad(_, _, _, _, _)
InputBad(kind, s, ops, obs, k) ==
  IF obs[k][1] # s THEN "the text is " \o ToString(obs[k][1]) \o " instead of " \o ToString(s)
  ELSE IF obs[k][2] \notin Means(kind, s)
       THEN kind \o " " \o ToString(s) \o " gives " \o ToString(obs[k][2]) \o " instead of " \o ToString(Means(kind, s))
       ELSE IF k > Len(ops) THEN "" ELSE InputBad(kind, EditText(s, ops[k]), ops, obs, k + 1)
FormOk(kind, v, o) == o[2] = v /\ v \in Means(kind, o[1])

---------------------------------------------------------------------------
(* P22 *)
RECURSIVE EventBad(_, _, _, _)
EventBad(e, ops, obs, k) ==
  IF k > Len(ops) THEN ""
  ELSE LET want == EventOp(e, ops[k])
           r == obs[k]
       IN IF r[1] # want.k THEN ToString(ops[k]) \o " on " \o ToString(e) \o ": " \o r[1]
          ELSE IF r[1] # "ok" THEN EventBad(e, ops, obs, k + 1)
          ELSE IF r[2] # want.v THEN ToString(ops[k]) \o " on " \o ToString(e) \o " gives " \o ToString(r[2])
          ELSE EventBad(r[2], ops, obs, k + 1)
FarOk(t, d, o) ==
  IF d[1] = 0 THEN o = <<"ok", BigAdd(t, d[2]), TRUE>>
  ELSE IF BigLeq(d[2], t) THEN o = <<"ok", BigSub(t, d[2]), TRUE>> ELSE o = <<"err">>
TempoStepOk(v, o) == /\ o[1] = IF v < 999 THEN <<"ok", v + 1>> ELSE <<"err">>
                     /\ o[2] = IF v > 1 THEN <<"ok", v - 1>> ELSE <<"err">>

---------------------------------------------------------------------------
(* P23 *)
ChangedOk(ord, den, o) ==
  \A j \in DOMAIN o :
    LET e == o[j]
        to == e[1]
        from == <<ord, den, j - 1>>
    IN /\ e[2] = <<to[1], den, j - 1>> /\ e[3] = <<ord, to[2], j - 1>> /\ e[4] = <<ord, den, to[3]>>
       /\ e[5] \in {from, to} /\ Ticks(e[5]) <= Ticks(from) /\ Ticks(e[5]) <= Ticks(to)
       /\ e[6] = ord
RhythmOk(n, o) ==
  \A j \in DOMAIN o : o[j] = IF ValidRhythm(n, j - 1) THEN <<1, n, j - 1, BarTicks(n, j - 1)>> ELSE <<0, 0, 0, 0>>
PartsOk(n, o) ==
  o = <<IF n <= 7 THEN <<n, n>> ELSE <<>>, IF n >= 2 THEN <<n>> ELSE <<>>, IF n <= 7 THEN <<n>> ELSE <<>>,
        IF n \in 1 .. 99 THEN <<n>> ELSE <<>>, IF n \in RhythmDens THEN <<n, n>> ELSE <<>>>>

---------------------------------------------------------------------------
(* P26 *)
RECURSIVE StepsBad(_, _, _, _, _)
StepsBad(kind, v, ops, obs, k) ==
  IF k > Len(ops) THEN ""
  ELSE LET want == L!Step(kind, v, ops[k]) IN
    IF obs[k] # want THEN kind \o " " \o ToString(v) \o " " \o ToString(ops[k]) \o " gives " \o ToString(obs[k])
    ELSE StepsBad(kind, IF want.k = "ok" THEN want.v ELSE v, ops, obs, k + 1)
MarkOk(n, o) == o = <<L!Fine(n), L!Fine(n), L!Refused, L!Refused, L!Fine(0), L!Fine(1)>>

---------------------------------------------------------------------------
Concerns ==
  [P14 |-> {"tuple"},
   P15 |-> {"pitch", "from_so", "so_names", "octave", "solfa", "key", "note"},
   P16 |-> {"trim", "rate", "trimeq", "far", "note"},
   P17 |-> {"clip", "cliptext", "clipcut", "clipmut"},
   P18 |-> {"paste"},
   P19 |-> {"stack"},
   P20 |-> {"grid", "snap", "gridtext", "grid_u32"},
   P21 |-> {"input", "form", "rate_of", "velocity", "tempo"},
   P22 |-> {"event", "farmove", "tempo_step", "note"},
   P23 |-> {"dur", "changed", "rhythm", "parts", "note"},
   P26 |-> {"made", "strict", "taken", "defaults", "named", "mark", "clipped", "intern", "steps"}]
BadAt(l) ==
  IF l.op \notin Concerns[Prop] THEN ""
  ELSE IF l.p # "" THEN l.op \o " of " \o ToString(l.i) \o " crashes: " \o l.p
  ELSE CASE l.op = "note" -> NotesBad(l)
         [] l.op = "pitch" -> Unless(PitchOk(l.i, l.o), l)
         [] l.op = "from_so" -> Unless(IsPitch(l.o, AtStaff(Clip(l.i, 0, 74), "")), l)
         [] l.op = "so_names" -> Unless(l.o = <<l.i % 7, (l.i \div 7) - 2>>, l)
         [] l.op = "octave" -> Unless(OctaveOk(l.i, l.o), l)
         [] l.op = "solfa" -> Unless(SolfaOk(l.i, l.o), l)
         [] l.op = "key" -> Unless(l.i \in -7 .. 7 /\ Elems(l.o.s) = Altered(l.i) /\ l.o.flat = (l.i < 0) /\ l.o.sharp = (l.i > 0), l)
         [] l.op = "trim" -> Unless(TrimOk(l.i.t, l.i.d, l.o), l)
         [] l.op = "rate" -> Unless(RateOk(l.i.r, l.i.len, l.o), l)
         [] l.op = "trimeq" -> LET same == l.i[1] = l.i[2] IN Unless(l.o = <<same, same, same, TRUE, TRUE>>, l)
         [] l.op = "far" -> Unless(l.o = BigMove(l.i.t, Sum4(l.i.st)), l)
         [] l.op = "tuple" -> Unless(TupleOk(l.i, l.o), l)
         [] l.op = "clip" -> Unless(l.o.k = "ok" /\ l.o.t /\ l.o.m = l.i, l)
         [] l.op = "cliptext" -> Unless(TextOk(l.i.p, l.i.m, l.o), l)
         [] l.op = "clipcut" -> Unless(l.o.k = (IF l.i = 0 THEN "empty" ELSE "parse") /\ l.o.t /\ l.o.m = <<>>, l)
         [] l.op = "clipmut" -> Unless(l.o.t /\ (l.o.k = "ok" => l.i.v), l)
         [] l.op = "paste" -> PasteBad(l)
         [] l.op = "stack" -> StackBad(Empty(l.i.cap), l.i.ops, l.o, 1)
         [] l.op = "grid" -> Unless(GridOk(l.i.g, l.i.from, l.o), l)
         [] l.op = "snap" -> Unless(SnapOk(l.i.g, l.i.t, l.o), l)
         [] l.op = "gridtext" -> Unless(GridTextOk(l.i, l.o), l)
         [] l.op = "grid_u32" -> Unless(l.o = (IF l.i = <<>> THEN <<"err">> ELSE <<"ok", l.i>>), l)
         [] l.op = "input" -> InputBad(l.i.kind, l.i.first, l.i.ops, l.o, 1)
         [] l.op = "form" -> Unless(FormOk(l.i.kind, l.i.v, l.o), l)
         [] l.op = "rate_of" -> Unless(l.o = l.i, l)
         [] l.op = "velocity" -> Unless(Elems(l.o) = {Clip(l.i, 0, 127)}, l)
         [] l.op = "tempo" -> Unless(Elems(l.o) = {Clip(l.i, 1, 999)}, l)
         [] l.op = "event" -> EventBad(l.i.e, l.i.ops, l.o, 1)
         [] l.op = "farmove" -> Unless(FarOk(l.i.t, l.i.d, l.o), l)
         [] l.op = "tempo_step" -> Unless(TempoStepOk(l.i, l.o), l)
         [] l.op = "dur" -> Unless(\A j \in DOMAIN l.o : l.o[j] = Ticks(<<l.i[1], l.i[2], j - 1>>), l)
         [] l.op = "changed" -> Unless(ChangedOk(l.i[1], l.i[2], l.o), l)
         [] l.op = "rhythm" -> Unless(RhythmOk(l.i, l.o), l)
         [] l.op = "parts" -> Unless(PartsOk(l.i, l.o), l)
         [] l.op = "strict" -> Unless(L!Strict(l.i[1], l.i[2], l.o), l)
         [] l.op = "made" -> Unless(\A j \in DOMAIN l.o : l.o[j] = L!Make(l.i[1], l.i[2]), l)
         [] l.op = "taken" -> Unless(L!ReadOk(l.i[1], l.i[2], l.o), l)
         [] l.op = "defaults" -> Unless(l.o = L!Defaults, l)
         [] l.op = "named" -> Unless(l.o = L!Named[l.i], l)
         [] l.op = "mark" -> Unless(MarkOk(l.i, l.o), l)
         [] l.op = "clipped" -> Unless(Elems(l.o) = {Clip(l.i[3], l.i[1], l.i[2])}, l)
         [] l.op = "intern" -> Unless(\A j \in DOMAIN l.o : l.o[j] = L!First(l.i, j), l)
         [] l.op = "steps" -> StepsBad(l.i.kind, l.i.v, l.i.ops, l.o, 1)
         [] OTHER -> ""

Init == /\ i \in {Chunk * c + 1 : c \in 0 .. (N - 1) \div Chunk}
        /\ bad = BadAt(Trace[i])
Go == /\ bad = ""
      /\ i < N /\ i % Chunk # 0
      /\ i' = i + 1
      /\ bad' = BadAt(Trace[i + 1])
Spec == Init /\ [][Go]_vars
Conforms == bad = ""
=============================================================================
