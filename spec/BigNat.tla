-------------------------------- MODULE BigNat --------------------------------
(***************************************************************************)
(* Natural numbers beyond TLC's 32-bit integers: sequences of base-2^15    *)
(* digits, least significant first, without leading zeros (<<>> is 0).     *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL B == 32768

RECURSIVE Big(_)
Big(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o Big(n \div B)

RECURSIVE Norm(_)
Norm(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a) - 1)) ELSE a

Digit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE AddC(_, _, _, _)
AddC(a, b, i, c) ==
    IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET s == Digit(a, i) + Digit(b, i) + c
         IN <<s % B>> \o AddC(a, b, i + 1, s \div B)
Add(a, b) == AddC(a, b, 1, 0)

RECURSIVE SubC(_, _, _, _)
SubC(a, b, i, c) ==
    IF i > Len(a) THEN <<>>
    ELSE LET s == Digit(a, i) - Digit(b, i) - c
         IN IF s < 0 THEN <<s + B>> \o SubC(a, b, i + 1, 1)
            ELSE <<s>> \o SubC(a, b, i + 1, 0)
Sub(a, b) == Norm(SubC(a, b, 1, 0))          \* a >= b

RECURSIVE MulD(_, _, _, _)
MulD(a, d, i, c) ==
    IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET s == a[i] * d + c
         IN <<s % B>> \o MulD(a, d, i + 1, s \div B)
RECURSIVE Mul(_, _)
Mul(a, b) == IF b = <<>> THEN <<>>
             ELSE Norm(Add(MulD(a, b[1], 1, 0),
                           IF Len(b) = 1 THEN <<>> ELSE <<0>> \o Mul(a, SubSeq(b, 2, Len(b)))))

RECURSIVE LtD(_, _, _)
LtD(a, b, i) == IF i = 0 THEN FALSE
                ELSE IF Digit(a, i) # Digit(b, i) THEN Digit(a, i) < Digit(b, i)
                ELSE LtD(a, b, i - 1)
Lt(a, b) == LtD(a, b, IF Len(a) > Len(b) THEN Len(a) ELSE Len(b))
Leq(a, b) == ~Lt(b, a)

RECURSIVE Pow2(_)
Pow2(k) == IF k < 15 THEN <<2 ^ k>> ELSE <<0>> \o Pow2(k - 15)

\* integer quotient, by binary long division
RECURSIVE DivC(_, _, _, _)
DivC(a, b, k, q) ==
    IF k < 0 THEN q
    ELSE LET t == Mul(b, Pow2(k))
         IN IF Leq(t, a) THEN DivC(Sub(a, t), b, k - 1, Add(q, Pow2(k)))
            ELSE DivC(a, b, k - 1, q)
Div(a, b) == Norm(DivC(a, b, 15 * Len(a), <<>>))
===============================================================================
