------------------------------ MODULE ContFracMC ------------------------------
(* Every call history of an evaluator over small fractions: the state is a       *)
(* function of the fraction and the order (C02), and the order's convergent is    *)
(* the fraction's value (C01).                                                   *)
EXTENDS ContFrac, Json
CONSTANTS Coeffs, MaxN, MaxLog, Fractions
VARIABLES e, log
vars == <<e, log>>
view == e
P1 == {<<x>> : x \in Coeffs}
P2 == {<<x, y>> : x \in Coeffs, y \in Coeffs}
\* all pairs of polynomials of degree <= 1 over Coeffs, some with two interlaces
AllFractions == {[a |-> <<p>>, b |-> <<q>>] : p \in P2, q \in P2}
                \cup {[a |-> <<p, q>>, b |-> <<<<"1", "1">>>>] : p \in P1, q \in P2}
                \cup {[a |-> <<<<"1", "1">>>>, b |-> <<p, q>>] : p \in P1, q \in P2}
\* b(2) = 0; never zero; interlaced with a zero at 3
FewFractions == {[a |-> <<<<"1", "2">>>>, b |-> <<<<"2", "-1">>>>],
                 [a |-> <<<<"1", "1">>>>, b |-> <<<<"0", "1">>>>],
                 [a |-> <<<<"2">>, <<"0", "1">>>>, b |-> <<<<"1">>, <<"3", "-1">>>>]}
Fs == IF Fractions = "all" THEN AllFractions ELSE FewFractions
Ev(op, f, n, fin) == [op |-> op, a |-> f.a, b |-> f.b, n |-> n, fin |-> fin]
Init == \E f \in Fs, av \in BOOLEAN : e = NewEval(f, av) /\ log = <<Ev("new", f, IF av THEN 1 ELSE 0, FALSE)>>
DoGen == \E n \in 0..MaxN, fin \in BOOLEAN : e' = Gen(e, n, fin) /\ log' = Append(log, Ev("gen", e.set, n, fin))
DoAdd == /\ e.set = e.f
         /\ \E n \in 0..2, fin \in BOOLEAN : e.n + n <= MaxN /\ e' = Add(e, n, fin) /\ log' = Append(log, Ev("add", e.f, n, fin))
DoReinit == Fractions = "few" /\ \E f \in Fs : f # e.set /\ e' = Reinit(e, f) /\ log' = Append(log, Ev("reinit", f, 0, FALSE))
Next == Len(log) < MaxLog /\ (DoGen \/ DoAdd \/ DoReinit)
Spec == Init /\ [][Next]_vars

HistoryFree == e.m = Steps(e.f, Mat0(e.f), 0, e.n, FALSE).m
NoZeroBehind == e.avoid => ~ Steps(e.f, Mat0(e.f), 0, e.n, TRUE).zero
ExactValue == LET as == [i \in 1..(e.n + 1) |-> RBig(Term(e.f.a, i - 1))]
                  bs == [i \in 1..e.n |-> RBig(Term(e.f.b, i))]
                  v == Backward(as, bs)
              IN v # Undef => e.m[3] # "0" /\ RFrac(e.m[1], e.m[3]) = v
Determinant == BSub(BMul(e.m[1], e.m[4]), BMul(e.m[2], e.m[3])) =
               FoldLeft(LAMBDA acc, i : BNeg(BMul(acc, Term(e.f.b, i))), "-1", [i \in 1..e.n |-> i])
FailedAddKeeps == [][(e'.n < e.n) => e'.n = 0 \/ e'.m = Steps(e'.f, Mat0(e'.f), 0, e'.n, FALSE).m]_vars
Emit == PrintT("TEST " \o ToJson(log'))
==============================================================================
