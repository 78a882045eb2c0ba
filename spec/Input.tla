------------------------------- MODULE Input -------------------------------
(* Text inputs: what a text means for each kind of input. A result is <<"none">>, <<"err">> or <<"ok", value>>;
   a location has two values, the base 1000 digits of the bar number and of the offset. *)
EXTENDS TextNum, FiniteSets

Kinds == {"location", "i16", "tempo", "velocity", "numerator", "denominator", "percent"}
No == <<"none">>
Bad == <<"err">>
Is(v) == <<"ok", v>>

\* a value that is limited to a range may be limited or rejected
Limited(s, lo, hi) ==
  IF ~IsDigits(Signed(s)) THEN {Bad}
  ELSE LET d == StripZeros(Signed(s))
           v == IF Len(d) > 6 THEN 999999 ELSE SmallValue(d)
       IN IF IsNegative(s) THEN {Bad, Is(lo)}
          ELSE IF v < lo THEN {Bad, Is(lo)}
          ELSE IF v > hi THEN {Bad, Is(hi)}
          ELSE {Is(v)}
\* a value that must be in a range
Within(s, lo, hi) ==
  IF IsUnsigned(s, U8Max) /\ UnsignedVal(s) \in lo .. hi THEN {Is(UnsignedVal(s))} ELSE {Bad}

PercentMax == 2000
PercentOf(s) ==
  IF IsInfinite(s) THEN {Bad, Is(IF IsNegative(s) THEN 0 ELSE PercentMax)}
  ELSE IF IsNan(s) THEN {Bad, Is(0)}
  ELSE IF ~IsDecimal(s) THEN {Bad}
  ELSE LET m == Millionths(s) IN
       IF IsNegative(s) THEN {Bad, Is(0)}
       ELSE IF m > 1000 * PercentMax THEN {Bad, Is(PercentMax)}
       \* rounded to thousandths; reading is in single precision
       ELSE {Is(x) : x \in {y \in {m \div 1000, m \div 1000 + 1} : m - 1000 * y \in -520 .. 520}}

LocationOf(s) ==
  LET c == Find(s, {":"})
      b == Before(s, c)
      o == After(s, c)
  IN IF c > 0 /\ IsDigits(b) /\ IsDigits(o) /\ DigitsLeq(b, U64Max) /\ DigitsLeq(o, U64Max)
     THEN {<<"ok", LimbsOf(b), LimbsOf(o)>>} ELSE {Bad}

\* the results a text may have
Means(kind, s) ==
  IF s = <<>> THEN {No}
  ELSE CASE kind = "location" -> LocationOf(s)
         [] kind = "i16" -> IF IsI16(s) THEN {Is(I16Val(s))} ELSE {Bad}
         [] kind = "tempo" -> Limited(s, 1, 999)
         [] kind = "velocity" -> Limited(s, 0, 127)
         [] kind = "numerator" -> Within(s, 1, 99)
         [] kind = "denominator" -> Within(s, 2, 255)
         [] kind = "percent" -> PercentOf(s)
\* the values an input can have
Domain(kind) ==
  CASE kind = "i16" -> -32768 .. 32767
    [] kind = "tempo" -> 1 .. 999
    [] kind = "velocity" -> 0 .. 127
    [] kind = "numerator" -> 1 .. 99
    [] kind = "denominator" -> 2 .. 255
    [] kind = "percent" -> 0 .. PercentMax

---------------------------------------------------------------------------
(* Edits of the text *)
InsertAt(s, k, c) == SubSeq(s, 1, k) \o <<c>> \o SubSeq(s, k + 1, Len(s))
RemoveAt(s, k) == SubSeq(s, 1, k) \o SubSeq(s, k + 2, Len(s))
EditText(s, op) ==
  CASE op[1] = "set" -> op[3]
    [] op[1] = "push" -> Append(s, op[3])
    [] op[1] = "pop" -> IF s = <<>> THEN s ELSE SubSeq(s, 1, Len(s) - 1)
    [] op[1] = "ins" -> InsertAt(s, op[2], op[3])      \* op[2] characters stay before it
    [] op[1] = "del" -> RemoveAt(s, op[2])
    [] op[1] = "clear" -> <<>>
=============================================================================
