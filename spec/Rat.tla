--------------------------------- MODULE Rat ---------------------------------
(* Exact rationals <<numerator, denominator>> over BigNum, denominator > 0,     *)
(* and the decimal notation of a number: the implementation's numbers are       *)
(* binary floating-point, hence exact rationals, so every statement about them   *)
(* is decided without rounding.                                                 *)
EXTENDS Integers, Sequences, SequencesExt, TLC, BigNum

RNorm(q) == LET g == BGcd(q[1], q[2])
                s == IF BSign(q[2]) < 0 THEN BNeg(g) ELSE g
            IN IF s = "1" THEN q ELSE <<BDiv(q[1], s), BDiv(q[2], s)>>
RInt(i) == <<ToString(i), "1">>
RBig(s) == <<s, "1">>
RZero == <<"0", "1">>
ROne == <<"1", "1">>
RFrac(a, b) == RNorm(<<a, b>>)
RNeg(q) == <<BNeg(q[1]), q[2]>>
RAbs(q) == <<BAbs(q[1]), q[2]>>
RAdd(p, q) == RNorm(<<BAdd(BMul(p[1], q[2]), BMul(q[1], p[2])), BMul(p[2], q[2])>>)
RSub(p, q) == RAdd(p, RNeg(q))
RMul(p, q) == RNorm(<<BMul(p[1], q[1]), BMul(p[2], q[2])>>)
RInv(q) == IF BSign(q[1]) < 0 THEN <<BNeg(q[2]), BNeg(q[1])>> ELSE <<q[2], q[1]>>
RDiv(p, q) == RMul(p, RInv(q))
RSign(q) == BSign(q[1])
RCmp(p, q) == BCmp(BMul(p[1], q[2]), BMul(q[1], p[2]))
RLe(p, q) == RCmp(p, q) <= 0
RLt(p, q) == RCmp(p, q) < 0
RIsZero(q) == q[1] = "0"
RMax(p, q) == IF RLt(p, q) THEN q ELSE p
RMin(p, q) == IF RLt(p, q) THEN p ELSE q
RFloor(q) == BDiv(q[1], q[2])
RCeil(q) == BNeg(BDiv(BNeg(q[1]), q[2]))
\* toward zero
RTrunc(q) == IF RSign(q) < 0 THEN RCeil(q) ELSE RFloor(q)
RFracPart(q) == RSub(q, RBig(RTrunc(q)))
RPow(q, n) == <<BPow(q[1], n), BPow(q[2], n)>>
Ten(k) == IF k >= 0 THEN <<BPow("10", k), "1">> ELSE <<"1", BPow("10", -k)>>
Two(k) == IF k >= 0 THEN <<BPow("2", k), "1">> ELSE <<"1", BPow("2", -k)>>

\* a recorded number: [t |-> "f", s |-> mantissa, e |-> binary exponent]
IsFin(x) == x.t = "f"
RatOf(x) == RNorm(IF x.e >= 0 THEN <<BMul(x.s, BPow("2", x.e)), "1">> ELSE <<x.s, BPow("2", -x.e)>>)

\* |p - q| <= 10^-k * max(|q|, floor)
RClose(p, q, k) == RLe(RAbs(RSub(p, q)), RMul(RAbs(q), Ten(-k)))
RClose1(p, q, k) == RLe(RAbs(RSub(p, q)), RMul(RMax(RAbs(q), ROne), Ten(-k)))

---------------------------------------------------------------------------
(* decimal notation *)
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE IF n = 1 THEN "0" ELSE LET h == Zeros(n \div 2) IN h \o h \o (IF n % 2 = 1 THEN "0" ELSE "")
PadLeft(s, n) == Zeros(n - Len(s)) \o s
\* the E with 10^(E-1) <= |q| < 10^E
DecExp(q) == LET a == RAbs(q)
                 g == Len(a[1]) - Len(a[2])
             IN IF RLt(a, Ten(g)) THEN g ELSE g + 1
\* q # 0 rounded to d significant digits, half away from zero
SigRound(q, d) == LET E == DecExp(q)
                      m == RFloor(RAdd(RMul(RAbs(q), Ten(d - E)), <<"1", "2">>))
                      r == RMul(RBig(m), Ten(E - d))
                  IN IF RSign(q) < 0 THEN RNeg(r) ELSE r
\* fixed-point notation with k decimals, truncated toward zero
FixedTrunc(q, k) == LET m == RFloor(RMul(RAbs(q), Ten(k)))
                        s == PadLeft(m, k + 1)
                    IN (IF RSign(q) < 0 THEN "-" ELSE "") \o
                       SubSeq(s, 1, Len(s) - k) \o "." \o SubSeq(s, Len(s) - k + 1, Len(s))
\* fixed-point notation of the value rounded to d significant digits
FixedStr(q, d) == IF RIsZero(q) THEN "0." \o Zeros(d)
                  ELSE LET r == SigRound(q, d)
                           k == d - DecExp(r)
                       IN FixedTrunc(r, IF k > 0 THEN k ELSE 0)
\* its first n characters
Prefix(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n)
NumKey(q, d, n) == Prefix(FixedStr(q, d), n)
==============================================================================
