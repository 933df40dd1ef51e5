----------------------------- MODULE PostFuncsMC -----------------------------
(* The certified functions satisfy the laws that characterise them, and agree with   *)
(* the enclosures the search's specification uses; every call leaves the precision.  *)
EXTENDS PostFuncs, Json, SequencesExt
CONSTANTS Grid, D, Slack, MaxLog
V == INSTANCE Values
VARIABLES q, log
vars == <<q, log>>
SmallGrid == {RFrac(ToString(n), ToString(d)) : n \in {-7, -3, -1, 0, 1, 2, 5, 22}, d \in {1, 2, 7}}
LargeGrid == {RFrac(ToString(n), ToString(d)) : n \in -12..25, d \in {1, 2, 3, 7, 113}} \cup
             {RMul(<<s, "1">>, Ten(k)) : s \in {"1", "-1", "314159265358979323846", "271828182845904523536"}, k \in {-40, -20, -9, 3}}
\* twice as dense, without the arguments beyond 10^10 (where a relative bound on sin or e^q says nothing)
ThoroughGrid == {RFrac(ToString(n), ToString(d)) : n \in -30..60, d \in {1, 2, 3, 5, 7, 113, 1000}} \cup
                {RMul(<<s, "1">>, Ten(k)) : s \in {"1", "-1"}, k \in {-40, -20, -9, 3}} \cup
                {RMul(<<s, "1">>, Ten(k)) : s \in {"314159265358979323846", "271828182845904523536"}, k \in {-40, -21, -20, -19}}
Meet(u, v) == RLe(u.lo, v.hi) /\ RLe(v.lo, u.hi)
Tight(v) == v.t # "iv" \/ RLe(RSub(v.hi, v.lo), RMul(Ten(Slack - D), RMax(RAbs(v.lo), Ten(-D \div 2))))
Mul(u, v) == IF u.t = "zero" \/ v.t = "zero" THEN [t |-> "iv", lo |-> RZero, hi |-> RZero]
             ELSE LET p == {RMul(x, y) : x \in {u.lo, u.hi}, y \in {v.lo, v.hi}}
                  IN [t |-> "iv", lo |-> CHOOSE x \in p : \A y \in p : RLe(x, y), hi |-> CHOOSE x \in p : \A y \in p : RLe(y, x)]
Add(u, v) == [t |-> "iv", lo |-> RAdd(u.lo, v.lo), hi |-> RAdd(u.hi, v.hi)]
Neg(v) == [v EXCEPT !.lo = RNeg(v.hi), !.hi = RNeg(v.lo)]
Same(u, v) == IF u.t = "iv" /\ v.t = "iv" THEN Meet(u, v) ELSE (u.t \in {"zero", "iv"} /\ v.t \in {"zero", "iv"} /\ Meet(u, v)) \/ u.t = v.t
F(f, x) == PostValue(f, x, D)
Usable(v) == v.t \in {"iv", "zero"}
Init == q = RZero /\ log = <<>>
Next == log = <<>> /\ q' \in Grid /\ log' = <<q'>>
Spec == Init /\ [][Next]_vars

Laws ==
    /\ \A f \in 0..(FuncCount - 1) : Tight(F(f, q))
    \* a reciprocal follows every function
    /\ \A k \in 0..11 : LET u == F(2 * k, q) v == F(2 * k + 1, q) IN (u.t = "iv" /\ v.t = "iv") => Meet(Mul(u, v), Pt(ROne))
    \* sin^2 + cos^2 = 1, tan cos = sin, cot sin = cos; parity
    /\ Same(Add(Mul(F(12, q), F(12, q)), Mul(F(14, q), F(14, q))), Pt(ROne))
    /\ Same(Mul(F(16, q), F(14, q)), F(12, q))
    /\ RIsZero(q) \/ Same(Mul(F(18, q), F(12, q)), F(14, q))
    /\ Same(F(12, RNeg(q)), Neg(F(12, q))) /\ Same(F(14, RNeg(q)), F(14, q)) /\ Same(F(16, RNeg(q)), Neg(F(16, q)))
    \* 2 sin cos = sin 2q
    /\ Same(Mul(Val(RInt(2), RInt(2)), Mul(F(12, q), F(14, q))), F(12, RMul(RInt(2), q)))
    \* e^q e^-q = 1, e^q e^q = e^2q, ln of both bounds of e^q encloses q
    /\ Same(Mul(F(20, q), F(20, RNeg(q))), Pt(ROne)) /\ Same(Mul(F(20, q), F(20, q)), F(20, RMul(RInt(2), q)))
    /\ RLt(RInt(60), RAbs(q)) \/ RLt(RAbs(q), Ten(-30)) \/
       LET e == F(20, q) IN RLe(ILo(ILn(e.lo, D), D), q) /\ RLe(q, IHi(ILn(e.hi, D), D))
    \* ln(q^2) = 2 ln q ; (sqrt q)^2 = q ; powers
    /\ RSign(q) <= 0 \/ Same(F(22, RMul(q, q)), Mul(Val(RInt(2), RInt(2)), F(22, q)))
    /\ RSign(q) < 0 \/ Same(Mul(F(10, q), F(10, q)), Pt(q))
    /\ \A k \in 1..4 : Same(Mul(F(2 * (k - 1), q), Pt(q)), F(2 * k, q))
    \* the search's enclosures contain these
    /\ RIsZero(q) \/ \A f \in 0..(FuncCount - 1) :
          LET v == V!Apply(f, V!Iv(q, q), 30) u == F(f, q)
          IN (v.t = "iv" => Usable(u) /\ Meet(u, v)) /\ (v.t = "nan" => u.t \in {"bad", "zero"}) /\ (u.t = "bad" => v.t \in {"nan", "maybe"})
(* behaviours for the driver *)
Emit == log # <<>> => PrintT("TEST " \o ToJson([n |-> q[1], d |-> q[2]]))
==============================================================================
