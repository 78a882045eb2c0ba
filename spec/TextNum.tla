------------------------------ MODULE TextNum ------------------------------
(* Numbers in texts. A text is a sequence of one character strings. *)
EXTENDS Integers, Sequences

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitSet == {Digits[d] : d \in 1 .. 10}
DigitVal == [c \in DigitSet |-> CHOOSE d \in 0 .. 9 : Digits[d + 1] = c]
IsDigits(s) == s # <<>> /\ \A j \in DOMAIN s : s[j] \in DigitSet

RECURSIVE StripZeros(_), ValueFrom(_, _, _), LexLeq(_, _, _)
StripZeros(s) == IF s # <<>> /\ s[1] = "0" THEN StripZeros(Tail(s)) ELSE s
ValueFrom(s, k, v) == IF k > Len(s) THEN v ELSE ValueFrom(s, k + 1, 10 * v + DigitVal[s[k]])
\* value of at most nine digits
SmallValue(s) == ValueFrom(s, 1, 0)
LexLeq(a, b, k) == IF k > Len(a) THEN TRUE
                   ELSE IF a[k] # b[k] THEN DigitVal[a[k]] < DigitVal[b[k]] ELSE LexLeq(a, b, k + 1)
\* comparison of natural numbers of any length
DigitsLeq(a0, b0) == LET a == StripZeros(a0) b == StripZeros(b0) IN
                     Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLeq(a, b, 1))

\* the limits of the machine integers, as texts
U8Max == <<"2", "5", "5">>
U16Max == <<"6", "5", "5", "3", "5">>
I16Max == <<"3", "2", "7", "6", "7">>
I16MinAbs == <<"3", "2", "7", "6", "8">>
U32Max == <<"4", "2", "9", "4", "9", "6", "7", "2", "9", "5">>
U64Max == <<"1","8","4","4","6","7","4","4","0","7","3","7","0","9","5","5","1","6","1","5">>

\* an optional sign and digits
Unsigned(s) == IF s # <<>> /\ s[1] = "+" THEN Tail(s) ELSE s
IsUnsigned(s, max) == IsDigits(Unsigned(s)) /\ DigitsLeq(Unsigned(s), max)
UnsignedVal(s) == SmallValue(StripZeros(Unsigned(s)))
Signed(s) == IF s # <<>> /\ s[1] \in {"+", "-"} THEN Tail(s) ELSE s
IsNegative(s) == s # <<>> /\ s[1] = "-"
IsI16(s) == IsDigits(Signed(s)) /\ DigitsLeq(Signed(s), IF IsNegative(s) THEN I16MinAbs ELSE I16Max)
I16Val(s) == LET v == SmallValue(StripZeros(Signed(s))) IN IF IsNegative(s) THEN -v ELSE v

\* base 1000 digits, least significant first, of a text of digits
RECURSIVE Limbs(_)
Limbs(s) == IF s = <<>> THEN <<>>
            ELSE IF Len(s) <= 3 THEN <<SmallValue(s)>>
            ELSE <<SmallValue(SubSeq(s, Len(s) - 2, Len(s)))>> \o Limbs(SubSeq(s, 1, Len(s) - 3))
LimbsOf(s) == Limbs(StripZeros(s))

---------------------------------------------------------------------------
(* Decimal numbers: sign, digits, point, exponent *)
Find(s, cs) == IF \E j \in DOMAIN s : s[j] \in cs THEN CHOOSE j \in DOMAIN s : s[j] \in cs /\ \A x \in 1 .. j - 1 : s[x] \notin cs ELSE 0
Before(s, j) == SubSeq(s, 1, j - 1)
After(s, j) == SubSeq(s, j + 1, Len(s))
Parts(t) ==
  LET s == Signed(t)
      e == Find(s, {"e", "E"})
      m == IF e = 0 THEN s ELSE Before(s, e)
      x == IF e = 0 THEN <<"0">> ELSE After(s, e)
      p == Find(m, {"."})
  IN [int |-> IF p = 0 THEN m ELSE Before(m, p), frac |-> IF p = 0 THEN <<>> ELSE After(m, p), exp |-> x]
AllDigits(s) == \A j \in DOMAIN s : s[j] \in DigitSet
IsDecimal(t) ==
  LET q == Parts(t) IN
    /\ AllDigits(q.int) /\ AllDigits(q.frac) /\ (q.int # <<>> \/ q.frac # <<>>)
    /\ IsDigits(Signed(q.exp))
ExpVal(x) == LET d == StripZeros(Signed(x))
                 v == IF Len(d) > 4 THEN 99999 ELSE SmallValue(d)
             IN IF IsNegative(x) THEN -v ELSE v
\* the absolute value in millionths, rounded down, at most 10^9
RECURSIVE Pad(_, _)
Pad(s, n) == IF Len(s) >= n THEN SubSeq(s, 1, n) ELSE Pad(Append(s, "0"), n)
Millionths(t) ==
  LET q == Parts(t)
      all == q.int \o q.frac
      ds == StripZeros(all)
      n == Len(q.int) + ExpVal(q.exp) + 6 - (Len(all) - Len(ds))
  IN IF ds = <<>> \/ n <= 0 THEN 0 ELSE IF n > 9 THEN 1000000000 ELSE SmallValue(Pad(ds, n))

Lower == [A |-> "a", F |-> "f", I |-> "i", N |-> "n", T |-> "t", Y |-> "y"]
LowerOf(c) == IF c \in DOMAIN Lower THEN Lower[c] ELSE c
LowerAll(s) == [j \in DOMAIN s |-> LowerOf(s[j])]
IsInfinite(t) == LowerAll(Signed(t)) \in {<<"i", "n", "f">>, <<"i", "n", "f", "i", "n", "i", "t", "y">>}
IsNan(t) == LowerAll(Signed(t)) = <<"n", "a", "n">>
=============================================================================
