------------------------------ MODULE InputMC ------------------------------
(* A text input being typed into. *)
EXTENDS Input, TLC, Json

CONSTANTS Kind, MaxLen
VARIABLES buf, seen, ops      \* seen: what the input may show
vars == <<buf, seen, ops>>
View == <<buf>>

Alphabet ==
  CASE Kind = "location" -> {"0", "9", ":", "-", " "}
    [] Kind = "i16" -> {"0", "3", "8", "+", "-", "x"}
    [] Kind = "tempo" -> {"0", "1", "9", "+", "-"}
    [] Kind = "velocity" -> {"1", "2", "8", "-", "."}
    [] Kind = "numerator" -> {"0", "1", "9", "+", " "}
    [] Kind = "denominator" -> {"0", "2", "5", "6", "-"}
    [] Kind = "percent" -> {"0", "2", "5", ".", "-", "e"}

Init == buf = <<>> /\ seen = {No} /\ ops = <<>>
Do(op) == /\ buf' = EditText(buf, op)
          /\ Len(buf') <= MaxLen
          /\ seen' = Means(Kind, buf')
          /\ ops' = Append(ops, op)
Next == \/ \E c \in Alphabet : Do(<<"push", 0, c>>)
        \/ \E c \in Alphabet, k \in 0 .. Len(buf) - 1 : Do(<<"ins", k, c>>)
        \/ \E k \in 0 .. Len(buf) - 1 : Do(<<"del", k, "">>)
        \/ Do(<<"pop", 0, "">>)
        \/ Do(<<"clear", 0, "">>)
Spec == Init /\ [][Next]_vars

Values == {r[2] : r \in {x \in seen : Len(x) = 2}}
EmptyIsNone == (buf = <<>>) <=> (seen = {No})
InRange == Kind # "location" => Values \subseteq Domain(Kind)
Meaningful == seen # {}
\* the text form of a value means that value
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<Digits[n + 1]>> ELSE Append(Decimal(n \div 10), Digits[(n % 10) + 1])
Thousandths(n) == LET d == <<Digits[((n \div 100) % 10) + 1], Digits[((n \div 10) % 10) + 1], Digits[(n % 10) + 1]>>
                  IN Decimal(n \div 1000) \o <<".">> \o d
Form(v) == IF Kind = "percent" THEN Thousandths(v) ELSE IF v < 0 THEN <<"-">> \o Decimal(-v) ELSE Decimal(v)
RoundTrip == Kind # "location" => \A v \in Values : Means(Kind, Form(v)) = {Is(v)}
\* zeros in front of digits change nothing
ZerosInFront == (Kind # "location" /\ IsDigits(buf)) => Means(Kind, <<"0">> \o buf) = seen
PlusInFront == (Kind \notin {"location"} /\ IsDigits(buf)) => Means(Kind, <<"+">> \o buf) = seen
Junk == \A c \in {"x", " ", "U+0663"} : buf # <<>> => Means(Kind, Append(buf, c)) = {Bad}

EmitScript == PrintT("SCRIPT " \o ToJson(<<Kind, ops'>>))
=============================================================================
