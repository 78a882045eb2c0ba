------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers of any size as sequences of base 1000 digits, least     *)
(* significant first, without leading zeros. TLC's own integers have 32    *)
(* bits, which is less than a tick or a bar number can take.               *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 1000

RECURSIVE BigOf(_), BigTrim(_), BigAddC(_, _, _), BigSubC(_, _, _), BigScale(_, _, _), BigCmpAt(_, _, _)

BigOf(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o BigOf(n \div Base)

BigTrim(a) == IF a = <<>> THEN a
              ELSE IF a[Len(a)] = 0 THEN BigTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a

Digit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Rest(a) == IF a = <<>> THEN a ELSE Tail(a)

BigAddC(a, b, c) == IF a = <<>> /\ b = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                    ELSE LET s == Digit(a, 1) + Digit(b, 1) + c
                         IN <<s % Base>> \o BigAddC(Rest(a), Rest(b), s \div Base)
BigAdd(a, b) == BigAddC(a, b, 0)

\* a - b for a >= b
BigSubC(a, b, c) == IF a = <<>> THEN <<>>
                    ELSE LET s == Digit(a, 1) - Digit(b, 1) - c
                         IN IF s < 0 THEN <<s + Base>> \o BigSubC(Rest(a), Rest(b), 1)
                            ELSE <<s>> \o BigSubC(Rest(a), Rest(b), 0)
BigSub(a, b) == BigTrim(BigSubC(a, b, 0))

\* a * d + c for a digit (or a small number) d
BigScale(a, d, c) == IF a = <<>> THEN BigOf(c)
                     ELSE LET s == a[1] * d + c
                          IN <<s % Base>> \o BigScale(Rest(a), d, s \div Base)
BigMulSmall(a, d) == BigTrim(BigScale(a, d, 0))       \* d < 2 000 000

\* a * b, one digit of b at a time
RECURSIVE BigMulAt(_, _, _)
BigMulAt(a, b, k) == IF k > Len(b) THEN <<>>
                     ELSE LET rest == BigMulAt(a, b, k + 1)
                          IN BigAdd(BigMulSmall(a, b[k]), IF rest = <<>> THEN rest ELSE <<0>> \o rest)
BigMul(a, b) == BigMulAt(a, b, 1)

BigCmpAt(a, b, i) == IF i = 0 THEN 0
                     ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1)
                     ELSE BigCmpAt(a, b, i - 1)
BigCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
                ELSE BigCmpAt(a, b, Len(a))
BigLeq(a, b) == BigCmp(a, b) <= 0

\* the largest tick: 4 294 967 295
MaxTick == <<295, 967, 294, 4>>
=============================================================================
