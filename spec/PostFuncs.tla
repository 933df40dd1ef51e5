------------------------------ MODULE PostFuncs ------------------------------
(* The post-processing functions, by their position: 2k is a named function, 2k+1   *)
(* its reciprocal.  The argument is an exact rational; the result is               *)
(*   "iv"   a number within certified bounds lo <= hi,                             *)
(*   "zero" exactly zero,                                                          *)
(*   "bad"  not a number (outside the domain, or a pole),                          *)
(*   "sign" a positive number beyond all bounds computed here: only its side of 1.  *)
EXTENDS Reals
FuncCount == 24
Names == <<"identity", "square", "cube", "4th power", "5th power", "square root", "sine", "cosine", "tangent",
           "cotangent", "exponential", "logarithm">>
FuncName(f) == (IF f % 2 = 1 THEN "reciprocal of " ELSE "") \o Names[f \div 2 + 1]

Val(lo, hi) == [t |-> "iv", lo |-> RMin(lo, hi), hi |-> RMax(lo, hi)]
ZeroV == [t |-> "zero", lo |-> RZero, hi |-> RZero]
BadV == [t |-> "bad", lo |-> RZero, hi |-> RZero]
SignV(big) == [t |-> "sign", lo |-> IF big THEN ROne ELSE RZero, hi |-> RZero]
UnsureV == [t |-> "unsure", lo |-> RZero, hi |-> RZero]
Pt(q) == IF RIsZero(q) THEN ZeroV ELSE Val(q, q)
OfInterval(i, D) == Val(ILo(i, D), IHi(i, D))
MaxI(a, b) == IF a > b THEN a ELSE b
\* numbers this small are their own sine up to a relative q^2
Tiny(q, D) == -2 * (DecExp(q) + 2) > D
\* sine and cosine to D significant digits, unless the sine or the cosine is smaller than 10^-(D/2)
SC(q, D) == LET G == D + MaxI(0, 1 - DecExp(q)) IN <<G, SinCos(q, G)>>
InRange(q, D) == D + MaxI(0, DecExp(q)) + MaxI(0, 1 - DecExp(q)) + 20 <= PiDigits
Quot(n, d, G) == IF IHasZero(d) THEN UnsureV
                 ELSE LET p == {RDiv(RBig(x), RBig(y)) : x \in {n[1], n[2]}, y \in {d[1], d[2]}}
                      IN [t |-> "iv", lo |-> CHOOSE x \in p : \A y \in p : RLe(x, y), hi |-> CHOOSE x \in p : \A y \in p : RLe(y, x)]
Sine(q, D) == IF RIsZero(q) THEN ZeroV ELSE LET q2 == RMul(q, q) IN
              IF Tiny(q, D) THEN Val(q, RMul(q, RSub(ROne, q2)))
              ELSE IF ~ InRange(q, D) THEN UnsureV ELSE LET s == SC(q, D) IN OfInterval(s[2][1], s[1])
Cosine(q, D) == IF RIsZero(q) THEN Pt(ROne)
                ELSE IF Tiny(q, D) THEN Val(RSub(ROne, RMul(q, q)), ROne)
                ELSE IF ~ InRange(q, D) THEN UnsureV ELSE LET s == SC(q, D) IN OfInterval(s[2][2], s[1])
Tangent(q, D) == IF RIsZero(q) THEN ZeroV
                 ELSE IF Tiny(q, D) THEN Val(q, RMul(q, RAdd(ROne, RMul(q, q))))
                 ELSE IF ~ InRange(q, D) THEN UnsureV ELSE LET s == SC(q, D) IN Quot(s[2][1], s[2][2], s[1])
Recip(v) == CASE v.t = "zero" -> BadV
              [] v.t = "bad" -> BadV
              [] v.t = "sign" -> SignV(RIsZero(v.lo))
              [] v.t = "unsure" -> UnsureV
              [] v.t = "iv" -> IF RSign(v.lo) * RSign(v.hi) <= 0 THEN UnsureV ELSE Val(RInv(v.hi), RInv(v.lo))
\* the function at position 2k, to D digits
Named(k, q, D) ==
    CASE k = 0 -> Pt(q)
      [] k \in 1..4 -> Pt(RPow(q, k + 1))
      [] k = 5 -> IF RSign(q) < 0 THEN BadV ELSE IF RIsZero(q) THEN ZeroV
                  ELSE LET G == D + MaxI(0, -DecExp(q)) IN OfInterval(ISqrt(q, G), G)
      [] k = 6 -> Sine(q, D)
      [] k = 7 -> Cosine(q, D)
      [] k = 8 -> Tangent(q, D)
      [] k = 9 -> Recip(Tangent(q, D))
      [] k = 10 -> IF RLt(RInt(20000), RAbs(q)) THEN SignV(RSign(q) > 0)
                   ELSE IF ~ RIsZero(q) /\ -DecExp(q) > D THEN Val(RSub(ROne, RMul(RInt(2), RAbs(q))), RAdd(ROne, RMul(RInt(2), RAbs(q))))
                   ELSE LET e == ExpRat(q, D) IN Val(e[1], e[2])
      [] k = 11 -> IF RSign(q) <= 0 THEN BadV ELSE IF q = ROne THEN ZeroV ELSE OfInterval(ILn(q, D), D)
PostValue(f, q, D) == IF f % 2 = 0 THEN Named(f \div 2, q, D)
                      ELSE IF f = 19 /\ RIsZero(q) THEN ZeroV          \* 1/cot is tan
                      ELSE Recip(Named(f \div 2, q, D))
---------------------------------------------------------------------------
(* what a call may return at working precision dps (two roundings, and mpmath's own) *)
WorkDigits(dps) == 2 * dps + 40
Huge(x) == x.e > 100000 \/ x.e < -100000
MayBe(x, v, dps) ==
    CASE v.t = "zero" -> IsFin(x) /\ x.s = "0"
      [] v.t = "bad" -> ~ IsFin(x) \/ x.s = "0"
      [] v.t = "sign" -> IsFin(x) /\ (IF RIsZero(v.lo) THEN BSign(x.s) >= 0 /\ x.e < 0 ELSE BSign(x.s) > 0 /\ x.e > 0)
      [] v.t = "iv" -> IsFin(x) /\ ~ Huge(x) /\
                       LET w == RMul(RMax(RAbs(v.lo), RAbs(v.hi)), RMul(RInt(4), Ten(-dps)))
                           r == RatOf(x)
                       IN RLe(RSub(v.lo, w), r) /\ RLe(r, RAdd(v.hi, w))
      [] v.t = "unsure" -> TRUE
\* a number where it must not be one is not an answer either
MayBeAt(x, v, f, dps) == IF v.t = "bad" /\ f % 2 = 0 /\ f # 0 THEN ~ IsFin(x) ELSE MayBe(x, v, dps)
\* the argument is itself no number: neither is the result
Limit(x) == ~ IsFin(x) \/ x.s = "0"
==============================================================================
