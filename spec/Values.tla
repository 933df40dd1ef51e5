-------------------------------- MODULE Values --------------------------------
(* Certified enclosures of what the implementation computes: the value of a        *)
(* continued fraction at a depth, of a post-processing function of it, of a        *)
(* left-hand side at a target.  A value is "iv" with rational bounds lo <= hi,      *)
(* "nan" (undefined or not a normal number) or "maybe" (this model does not decide: *)
(* an inner denominator vanishes, the enclosure straddles a pole or zero).          *)
EXTENDS Reals, Lhs
CF == INSTANCE ContFrac
Nan == [t |-> "nan", lo |-> RZero, hi |-> RZero]
Maybe == [t |-> "maybe", lo |-> RZero, hi |-> RZero]
Iv(lo, hi) == [t |-> "iv", lo |-> lo, hi |-> hi]
Exact(q) == IF RIsZero(q) THEN Nan ELSE Iv(q, q)
\* widened by a relative error
Widen(v, eps) == LET w == RMul(RMax(RAbs(v.lo), RAbs(v.hi)), eps) IN Iv(RSub(v.lo, w), RAdd(v.hi, w))
Normal(v) == IF v.t # "iv" THEN v ELSE IF RSign(v.lo) * RSign(v.hi) > 0 THEN v
             ELSE IF RIsZero(v.lo) /\ RIsZero(v.hi) THEN Nan ELSE Maybe

(* a(0) + b(1)/(a(1) + ... + b(d-1)/a(d-1)), innermost first, as the fraction of two   *)
(* integers, with a bound of the rounding error of floating-point evaluation in units *)
(* of the precision                                                                  *)
Depth(f, d, dps) ==
    FoldLeft(LAMBDA acc, j :
               IF acc.n = "0" THEN [acc EXCEPT !.gone = TRUE]
               ELSE LET i == d - 1 - j
                        bd == BMul(CF!Term(f.b, i + 1), acc.d)
                        n == BAdd(BMul(CF!Term(f.a, i), acc.n), bd)
                        err == IF n = "0" THEN acc.err ELSE BAdd("3", BDiv(BMul(BAbs(bd), BAdd(acc.err, "3")), BAbs(n)))
                    IN [n |-> n, d |-> acc.n, err |-> err,
                        \* an inner value that is all rounding noise may as well be computed as zero
                        gone |-> acc.gone \/ (i > 0 /\ BCmp(err, BPow("10", dps - 4)) > 0)],
             [n |-> CF!Term(f.a, d - 1), d |-> "1", gone |-> FALSE, err |-> "2"], [j \in 1..(d - 1) |-> j])
\* shortened to D digits; the enclosure grows accordingly
Short(q, D) == IF RIsZero(q) THEN RZero ELSE RMul(RBig(RFloor(RMul(q, Ten(D - DecExp(q))))), Ten(DecExp(q) - D))
FracValue(a, b, d, dps) ==
    LET r == Depth([a |-> a, b |-> b], d, dps) IN
    IF r.gone THEN Maybe
    ELSE IF r.n = "0" THEN Maybe                       \* zero, or rounding noise around it
    ELSE IF BCmp(r.err, BPow("10", dps \div 3)) > 0 THEN Maybe
    ELSE LET q == RNorm(<<r.n, r.d>>)
             s == Short(q, dps + 30)
         IN Widen(Iv(s, s), RMul(RBig(r.err), Ten(2 - dps)))
\* the convergent of order n: what the evaluator reports, rounded once; "nan" if its denominator is zero
ConvValue(a, b, n, dps) ==
    LET f == [a |-> a, b |-> b]
        m == CF!Steps(f, CF!Mat0(f), 0, n, FALSE).m
    IN IF m[3] = "0" THEN Nan ELSE IF m[1] = "0" THEN Nan
       ELSE LET s == Short(RNorm(<<m[1], m[3]>>), dps + 30) IN Widen(Iv(s, s), Ten(2 - dps))
ZeroWithin(b, n) == \E i \in 1..n : CF!Term(b, i) = "0"

---------------------------------------------------------------------------
(* post-processing functions by their position: every second one is the reciprocal *)
IPair(lo, hi) == Iv(RMin(lo, hi), RMax(lo, hi))
VInv(v) == IF v.t # "iv" THEN v
           ELSE IF RSign(v.lo) * RSign(v.hi) <= 0 THEN Maybe ELSE Iv(RInv(v.hi), RInv(v.lo))
VPow(v, k) == IF k % 2 = 1 THEN Iv(RPow(v.lo, k), RPow(v.hi, k))
              ELSE IF RSign(v.lo) * RSign(v.hi) <= 0 THEN Maybe
              ELSE IPair(RPow(v.lo, k), RPow(v.hi, k))
OfI(i, D) == Iv(ILo(i, D), IHi(i, D))
Mid(v) == RMul(RAdd(v.lo, v.hi), <<"1", "2">>)
Big(v) == RLt(Ten(3), RMax(RAbs(v.lo), RAbs(v.hi)))
SinCosOf(v, D) == LET w == RAdd(RSub(v.hi, v.lo), Ten(-D))
                      sc == SinCos(Short(Mid(v), D + 5), D)
                      e(i) == Iv(RSub(ILo(i, D), w), RAdd(IHi(i, D), w))
                  IN <<e(sc[1]), e(sc[2])>>
VMul(u, v) == LET p == {RMul(u.lo, v.lo), RMul(u.lo, v.hi), RMul(u.hi, v.lo), RMul(u.hi, v.hi)}
              IN Iv(CHOOSE x \in p : \A y \in p : RLe(x, y), CHOOSE x \in p : \A y \in p : RLe(y, x))
\* the function at position 2k
Base(k, v, D) ==
    CASE k = 0 -> v
      [] k \in 1..4 -> VPow(v, k + 1)
      [] k = 5 -> IF RSign(v.hi) < 0 THEN Nan ELSE IF RSign(v.lo) < 0 THEN Maybe
                  ELSE Iv(ILo(ISqrt(v.lo, D), D), IHi(ISqrt(v.hi, D), D))
      [] k = 6 -> IF Big(v) THEN Maybe ELSE SinCosOf(v, D)[1]
      [] k = 7 -> IF Big(v) THEN Maybe ELSE SinCosOf(v, D)[2]
      [] k = 8 -> IF Big(v) THEN Maybe ELSE LET s == SinCosOf(v, D) c == VInv(s[2]) IN IF c.t # "iv" THEN c ELSE VMul(s[1], c)
      [] k = 9 -> IF Big(v) THEN Maybe ELSE LET s == SinCosOf(v, D) c == VInv(s[1]) IN IF c.t # "iv" THEN c ELSE VMul(s[2], c)
      [] k = 10 -> IF RLt(RInt(200), RMax(RAbs(v.lo), RAbs(v.hi))) THEN Maybe
                   ELSE Iv(ExpRat(Short(v.lo, D), D)[1], RMul(ExpRat(Short(v.hi, D), D)[2], RAdd(ROne, Ten(3 - D))))
      [] k = 11 -> IF RSign(v.hi) <= 0 THEN Nan ELSE IF RSign(v.lo) <= 0 THEN Maybe
                   ELSE Iv(ILo(ILn(Short(v.lo, D), D), D), RAdd(IHi(ILn(Short(v.hi, D), D), D), Ten(3 - D)))
Apply(f, v, dps) ==
    IF v.t # "iv" THEN v
    ELSE LET b == Base(f \div 2, v, dps + 25)
             r == IF b.t # "iv" THEN b ELSE Normal(Widen(b, Ten(4 - dps)))
         IN IF f % 2 = 0 THEN r ELSE VInv(r)

---------------------------------------------------------------------------
(* a left-hand side at the target, as LhsTrace!ValueOk bounds it *)
LhsValue(x, t, dps) ==
    LET f == IF x.kind = "ulcd" THEN Func(x) ELSE <<PTrim(x.n), PTrim(x.d)>>
        k == IF x.kind = "ulcd" THEN RZero ELSE RBig(x.k)
        n == PEval(f[1], t)
        d == PEval(f[2], t)
    IN IF RIsZero(d) THEN Nan
       ELSE LET q == RDiv(n, d)
                v == RAdd(q, k)
                tol == RMul(Ten(1 - dps), RMul(RInt(8),
                         RAdd(RAdd(RDiv(PEvalAbs(f[1], t), RAbs(d)), RDiv(RMul(RAbs(n), PEvalAbs(f[2], t)), RMul(d, d))),
                              RAdd(RAbs(q), RAbs(k)))))
            IN IF RLe(RAbs(d), RMul(tol, RAbs(d))) THEN Maybe
               ELSE IF RIsZero(n) /\ x.kind = "rat" THEN Maybe
               ELSE Iv(RSub(v, tol), RAdd(v, tol))

---------------------------------------------------------------------------
(* digits: the absolute value, its fractional part when integers are ignored *)
DigitText(q, frac, D) == FixedTrunc(IF frac THEN RFracPart(RAbs(q)) ELSE RAbs(q), D)
\* the texts the value may be addressed by: one, or two around a digit boundary (or more, if 0 is inside)
Texts(v, frac, D) == {DigitText(v.lo, frac, D), DigitText(v.hi, frac, D)} \cup
                     (IF RSign(v.lo) * RSign(v.hi) <= 0 THEN {DigitText(RZero, frac, D)} ELSE {}) \cup
                     \* just below an integer the fractional part is rounded up to 1
                     (IF frac /\ RFloor(v.lo) # RFloor(v.hi) THEN {FixedTrunc(ROne, D)} ELSE {})
==============================================================================
