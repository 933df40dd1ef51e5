----------------------------- MODULE BigNumCheck -----------------------------
(* The overridden operators agree with their TLA+ definitions on a grid of      *)
(* samples: small values of both signs, word boundaries and long operands.      *)
EXTENDS Integers, Sequences, TLC, FiniteSets
B == INSTANCE BigNum
R == INSTANCE BigNumRef
Small == { ToString(i) : i \in -5..5 }
Long == { "2147483647", "-2147483648", "99999999999999999999", "-31415926535897932384626433832795028" }
S == Small \cup Long
VARIABLE p
Init == p \in (S \X S)
Next == UNCHANGED p
Agree == LET a == p[1]  b == p[2] IN
    /\ B!BAdd(a, b) = R!BAdd(a, b)
    /\ B!BSub(a, b) = R!BSub(a, b)
    /\ B!BMul(a, b) = R!BMul(a, b)
    /\ B!BCmp(a, b) = R!BCmp(a, b)
    /\ B!BGcd(a, b) = R!BGcd(a, b)
    /\ b # "0" => B!BDiv(a, b) = R!BDiv(a, b) /\ B!BMod(a, b) = R!BMod(a, b)
    /\ B!BNeg(a) = R!BNeg(a) /\ B!BAbs(a) = R!BAbs(a) /\ B!BSign(a) = R!BSign(a)
    /\ a \in Small => B!BToInt(a) = R!BToInt(a) /\ ToString(R!BToInt(a)) = a
    /\ b = "0" => \A n \in 0..3 : B!BPow(a, n) = R!BPow(a, n)
    /\ b = "0" /\ R!BSign(a) >= 0 => B!BIsqrt(a) = R!BIsqrt(a)
    /\ \A c \in {"0", "-3", "99999999999999999999"} : /\ B!BHorner(<<a, c, b>>, b) = R!BHorner(<<a, c, b>>, b)
                                                     /\ B!BDot(a, c, b, a) = R!BDot(a, c, b, a)
    /\ B!BHorner(<<>>, a) = R!BHorner(<<>>, a) /\ B!BHorner([i \in 1..2 |-> p[i]], a) = R!BHorner(p, a)
\* the definition itself: TLC's own integers on the small values
RefIsInt == \A i, j \in -12..12 :
    /\ R!BAdd(ToString(i), ToString(j)) = ToString(i + j)
    /\ R!BMul(ToString(i), ToString(j)) = ToString(i * j)
    /\ j # 0 => R!BDiv(ToString(i), ToString(j)) = ToString(IF j > 0 THEN i \div j ELSE (-i) \div (-j))
ASSUME RefIsInt
==============================================================================
