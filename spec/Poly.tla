--------------------------------- MODULE Poly ---------------------------------
(* Univariate integer polynomials: sequences of decimal strings, constant first, *)
(* without leading zeros (<<>> is zero).                                         *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Rat
PTrim(p) == LET s == {i \in 1..Len(p) : p[i] # "0"}
            IN IF s = {} THEN <<>> ELSE SubSeq(p, 1, CHOOSE i \in s : \A j \in s : j <= i)
PC(p, i) == IF i <= Len(p) THEN p[i] ELSE "0"
PMaxLen(p, q) == IF Len(p) >= Len(q) THEN Len(p) ELSE Len(q)
PAdd(p, q) == PTrim([i \in 1..PMaxLen(p, q) |-> BAdd(PC(p, i), PC(q, i))])
PNeg(p) == [i \in 1..Len(p) |-> BNeg(p[i])]
PSub(p, q) == PAdd(p, PNeg(q))
PScale(p, c) == IF c = "0" THEN <<>> ELSE [i \in 1..Len(p) |-> BMul(p[i], c)]
PShift(p, n) == IF p = <<>> THEN <<>> ELSE [i \in 1..n |-> "0"] \o p
PMul(p, q) == IF p = <<>> \/ q = <<>> THEN <<>>
              ELSE FoldLeft(LAMBDA acc, i : PAdd(acc, PShift(PScale(q, p[i]), i - 1)), <<>>, [i \in 1..Len(p) |-> i])
PLead(p) == p[Len(p)]
PContent(p) == FoldLeft(LAMBDA acc, c : BGcd(acc, c), "0", p)
PPrim(p) == LET g == PContent(p) IN IF g = "0" \/ g = "1" THEN p ELSE [i \in 1..Len(p) |-> BDiv(p[i], g)]
\* value at a rational
PEval(p, x) == FoldRight(LAMBDA c, acc : RAdd(RBig(c), RMul(acc, x)), p, RZero)
PEvalAbs(p, x) == FoldRight(LAMBDA c, acc : RAdd(RBig(BAbs(c)), RMul(acc, RAbs(x))), p, RZero)
\* pseudo-remainder of p by q # 0
RECURSIVE PRem(_, _)
PRem(p, q) == IF Len(p) < Len(q) THEN p
              ELSE PRem(PSub(PScale(p, PLead(q)), PShift(PScale(q, PLead(p)), Len(p) - Len(q))), q)
RECURSIVE PGcdPrim(_, _)
PGcdPrim(p, q) == IF q = <<>> THEN p ELSE PGcdPrim(q, PPrim(PRem(p, q)))
\* the greatest common divisor over the integers, up to sign
PGcd(p, q) == IF p = <<>> THEN q ELSE IF q = <<>> THEN p
              ELSE PScale(PGcdPrim(PPrim(p), PPrim(q)), BGcd(PContent(p), PContent(q)))
Coprime(p, q) == LET g == PGcd(p, q) IN Len(g) = 1 /\ BAbs(g[1]) = "1"

(* rational functions <<numerator, denominator>>, denominator # zero *)
FEq(f, g) == PMul(f[1], g[2]) = PMul(g[1], f[2])
FNeg(f) == <<PNeg(f[1]), f[2]>>
FAddInt(f, n) == <<PAdd(f[1], PScale(f[2], n)), f[2]>>
FSub(f, g) == <<PSub(PMul(f[1], g[2]), PMul(g[1], f[2])), PMul(f[2], g[2])>>
FInv(f) == <<f[2], f[1]>>
\* N/D is constant: N is a multiple of D, or zero
FConst(f) == f[1] = <<>> \/ (Len(f[1]) = Len(f[2]) /\ PScale(f[1], PLead(f[2])) = PScale(f[2], PLead(f[1])))
\* N/D is a constant integer
FIntConst(f) == FConst(f) /\ (f[1] = <<>> \/ BMod(PLead(f[1]), PLead(f[2])) = "0")
FValue(f, x) == RDiv(PEval(f[1], x), PEval(f[2], x))
==============================================================================
