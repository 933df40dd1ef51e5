------------------------------ MODULE BigNumRef ------------------------------
(* Integers of any size, as decimal strings ("-" sign, no leading zeros).      *)
(* This module is the definition: schoolbook arithmetic on digit sequences.    *)
(* BigNum.tla re-exports it, and java/BigNumOverrides.java gives TLC a fast     *)
(* evaluation of the same operators; BigNumCheck.tla compares the two.         *)
EXTENDS Integers, Sequences, TLC

LOCAL Digit(c) == CHOOSE d \in 0..9 : ToString(d) = c
LOCAL MaxI(a, b) == IF a > b THEN a ELSE b

\* magnitudes: little-endian digit sequences without leading zeros; <<>> is 0
RECURSIVE Trim(_)
Trim(m) == IF m = <<>> THEN m
                 ELSE IF m[Len(m)] = 0 THEN Trim(SubSeq(m, 1, Len(m) - 1)) ELSE m
LOCAL At(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

IsNeg(s) == SubSeq(s, 1, 1) = "-"
LOCAL Mag(s) == LET t == IF IsNeg(s) THEN SubSeq(s, 2, Len(s)) ELSE s
                IN Trim([i \in 1..Len(t) |-> Digit(SubSeq(t, Len(t) + 1 - i, Len(t) + 1 - i))])
RECURSIVE MagStr(_)
MagStr(m) == IF m = <<>> THEN "" ELSE ToString(m[Len(m)]) \o MagStr(SubSeq(m, 1, Len(m) - 1))
LOCAL Str(neg, m) == IF m = <<>> THEN "0" ELSE (IF neg THEN "-" ELSE "") \o MagStr(m)

RECURSIVE CmpFrom(_, _, _)
CmpFrom(x, y, i) == IF i = 0 THEN 0
                          ELSE IF At(x, i) < At(y, i) THEN -1
                          ELSE IF At(x, i) > At(y, i) THEN 1 ELSE CmpFrom(x, y, i - 1)
LOCAL MCmp(x, y) == CmpFrom(x, y, MaxI(Len(x), Len(y)))

RECURSIVE AddFrom(_, _, _, _)
AddFrom(x, y, i, c) == IF i > MaxI(Len(x), Len(y)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                             ELSE LET s == At(x, i) + At(y, i) + c
                                  IN <<s % 10>> \o AddFrom(x, y, i + 1, s \div 10)
LOCAL MAdd(x, y) == Trim(AddFrom(x, y, 1, 0))
RECURSIVE SubFrom(_, _, _, _)
SubFrom(x, y, i, c) == IF i > Len(x) THEN <<>>
                             ELSE LET s == At(x, i) - At(y, i) - c
                                  IN <<s % 10>> \o SubFrom(x, y, i + 1, IF s < 0 THEN 1 ELSE 0)
LOCAL MSub(x, y) == Trim(SubFrom(x, y, 1, 0))                       \* x >= y
RECURSIVE ScaleFrom(_, _, _, _)
ScaleFrom(x, d, i, c) == IF i > Len(x) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                               ELSE LET s == x[i] * d + c
                                    IN <<s % 10>> \o ScaleFrom(x, d, i + 1, s \div 10)
LOCAL MScale(x, d) == Trim(ScaleFrom(x, d, 1, 0))
RECURSIVE MMul(_, _)
MMul(x, y) == IF y = <<>> THEN <<>>
                    ELSE MAdd(MScale(x, y[1]), Trim(<<0>> \o MMul(x, SubSeq(y, 2, Len(y)))))
\* long division, one digit at a time from the most significant: <<quotient, remainder>>
LOCAL QDigit(r, y) == CHOOSE q \in 0..9 : /\ MCmp(MScale(y, q), r) <= 0
                                          /\ MCmp(MScale(y, q + 1), r) > 0
RECURSIVE MDivMod(_, _)
MDivMod(x, y) == IF x = <<>> THEN <<<<>>, <<>>>>
                       ELSE LET h == MDivMod(SubSeq(x, 2, Len(x)), y)
                                r == Trim(<<x[1]>> \o h[2])
                                q == QDigit(r, y)
                            IN <<Trim(<<q>> \o h[1]), MSub(r, MScale(y, q))>>

BNeg(a) == IF a = "0" THEN a ELSE IF IsNeg(a) THEN SubSeq(a, 2, Len(a)) ELSE "-" \o a
BAbs(a) == IF IsNeg(a) THEN BNeg(a) ELSE a
BSign(a) == IF a = "0" THEN 0 ELSE IF IsNeg(a) THEN -1 ELSE 1
BAdd(a, b) == LET x == Mag(a)  y == Mag(b)
              IN IF IsNeg(a) = IsNeg(b) THEN Str(IsNeg(a), MAdd(x, y))
                 ELSE IF MCmp(x, y) >= 0 THEN Str(IsNeg(a), MSub(x, y)) ELSE Str(IsNeg(b), MSub(y, x))
BSub(a, b) == BAdd(a, BNeg(b))
BMul(a, b) == Str(IsNeg(a) # IsNeg(b), MMul(Mag(a), Mag(b)))
\* floor division, remainder with the divisor's sign
BDiv(a, b) == LET qr == MDivMod(Mag(a), Mag(b))
              IN IF IsNeg(a) = IsNeg(b) \/ qr[2] = <<>> THEN Str(IsNeg(a) # IsNeg(b), qr[1])
                 ELSE Str(TRUE, MAdd(qr[1], <<1>>))
BMod(a, b) == BSub(a, BMul(b, BDiv(a, b)))
BCmp(a, b) == BSign(BSub(a, b))
RECURSIVE BPow(_, _)
BPow(a, n) == IF n = 0 THEN "1" ELSE BMul(a, BPow(a, n - 1))
RECURSIVE BGcd(_, _)
BGcd(a, b) == IF b = "0" THEN BAbs(a) ELSE BGcd(b, BMod(a, b))
\* integer square root by Newton's iteration from above
RECURSIVE Newton(_, _)
Newton(a, x) == LET y == BDiv(BAdd(x, BDiv(a, x)), "2")
                      IN IF BCmp(y, x) >= 0 THEN x ELSE Newton(a, y)
BIsqrt(a) == IF a = "0" THEN "0" ELSE Newton(a, BAdd(BDiv(a, "2"), "1"))
\* the TLC integer of a small one
RECURSIVE MagInt(_)
MagInt(m) == IF m = <<>> THEN 0 ELSE m[1] + 10 * MagInt(SubSeq(m, 2, Len(m)))
BToInt(a) == IF IsNeg(a) THEN -MagInt(Mag(a)) ELSE MagInt(Mag(a))
\* the polynomial with the coefficients p (constant first) at x; a b + c d
RECURSIVE BHorner(_, _)
BHorner(p, x) == IF p = <<>> THEN "0" ELSE BAdd(p[1], BMul(x, BHorner(SubSeq(p, 2, Len(p)), x)))
BDot(a, b, c, d) == BAdd(BMul(a, b), BMul(c, d))
==============================================================================
