------------------------------- MODULE ContFrac -------------------------------
(* Continued fractions of integer polynomial families (cont_fracs.py): the exact *)
(* convergents, and the evaluator as a state machine.                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Rat

\* a polynomial is the sequence of its coefficients (decimal strings), constant first
PolyAt(p, x) == BHorner(p, x)
\* the i'th term of a family of interlaced polynomials
Term(ps, i) == PolyAt(ps[(i % Len(ps)) + 1], ToString(i))

\* a family pair [a, b]; its convergent of order n as <<p_n, p_(n-1), q_n, q_(n-1)>>
Mat0(f) == <<Term(f.a, 0), "1", "1", "0">>
MatStep(m, a, b) == <<BDot(a, m[1], b, m[2]), m[1], BDot(a, m[3], b, m[4]), m[3]>>
\* n steps from order k; stops at a zero numerator if those are avoided: [m, zero]
Steps(f, m, k, n, avoid) ==
    FoldLeft(LAMBDA acc, j : IF acc.zero THEN acc
                             ELSE LET b == Term(f.b, k + j)
                                  IN IF avoid /\ b = "0" THEN [acc EXCEPT !.zero = TRUE]
                                     ELSE [m |-> MatStep(acc.m, Term(f.a, k + j), b), zero |-> FALSE],
             [m |-> m, zero |-> FALSE], [j \in 1..n |-> j])
\* the definition: a(0) + b(1)/(a(1) + ... + b(n)/a(n)), innermost first; "undef" when a tail is zero
Undef == <<"0", "0">>
Backward(as, bs) == \* as[1] + bs[1]/(as[2] + bs[2]/...), Len(bs) = Len(as) - 1
    FoldLeft(LAMBDA acc, j : IF acc = Undef \/ RIsZero(acc) THEN Undef
                             ELSE LET i == Len(bs) + 1 - j IN RAdd(as[i], RDiv(bs[i], acc)),
             as[Len(as)], [j \in 1..Len(bs) |-> j])

---------------------------------------------------------------------------
(* The evaluator.  f: the fraction being evaluated, set: the one it was last    *)
(* initialised with (in force from the next generation), n: order reached, m:   *)
(* its convergent, val: whether the value was computed for that convergent,     *)
(* info: convergence information.                                              *)
NoInfo == [type |-> "undefined", base |-> RZero]
NewEval(f, avoid) == [f |-> f, set |-> f, n |-> 0, m |-> Mat0(f), val |-> FALSE, info |-> NoInfo, avoid |-> avoid]
Gen(e, n, fin) == LET s == Steps(e.set, Mat0(e.set), 0, n, e.avoid)
                  IN IF s.zero THEN [e EXCEPT !.f = e.set, !.n = 0, !.m = Mat0(e.set), !.val = FALSE]
                     ELSE [e EXCEPT !.f = e.set, !.n = n, !.m = s.m, !.val = fin]
GenFails(e, n) == Steps(e.set, Mat0(e.set), 0, n, e.avoid).zero
Add(e, n, fin) == LET s == Steps(e.f, e.m, e.n, n, e.avoid)
                  IN IF s.zero THEN e
                     ELSE [e EXCEPT !.n = e.n + n, !.m = s.m, !.val = IF fin THEN TRUE ELSE e.val /\ n = 0]
AddFails(e, n) == Steps(e.f, e.m, e.n, n, e.avoid).zero
Reinit(e, f) == [e EXCEPT !.set = f, !.info = NoInfo]
SetInfo(e, type, base) == [e EXCEPT !.info = [type |-> type, base |-> base]]
\* the rate b^-k needs k iterations for the accuracy
RateEnough(info, k, acc) == RLe(ROne, RMul(RPow(info.base, k), acc))
Limited(info, acc) == info.type \in {"exp", "super_exp"} /\ ~ RIsZero(info.base) /\ ~ RIsZero(acc)
==============================================================================
