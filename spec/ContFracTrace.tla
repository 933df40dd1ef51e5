---------------------------- MODULE ContFracTrace ----------------------------
(* Recorded histories of real ContFrac objects, and calls of the one-shot        *)
(* evaluators, are behaviours of ContFrac.                                       *)
EXTENDS TraceBase, ContFrac
VARIABLES l, st
E == Trace[l]

Fr(e) == [a |-> e.a, b |-> e.b]
NearTo(x, v, dps) == IsFin(x) /\ RClose(RatOf(x), v, dps - 2)
ValueOk(x, m, dps) == IF m[3] = "0" THEN x.t = "nan"
                      ELSE IF m[1] = "0" THEN IsFin(x) /\ x.s = "0"
                      ELSE NearTo(x, RFrac(m[1], m[3]), dps)
SameRatio(p, q, m) == IF m[3] = "0" THEN q = "0" /\ (p = "0") = (m[1] = "0")
                      ELSE q # "0" /\ BMul(p, m[3]) = BMul(q, m[1])
ValidOk(valid, x) == valid = (IsFin(x) /\ x.s # "0")
\* the difference to a target, signed or not
CmpOk(e, m) == m[3] = "0" \/
               LET v == RFrac(m[1], m[3])
                   t == RatOf(e.target)
                   d == RSub(v, t)
               IN IsFin(e.cmp) /\ RLe(RAbs(RSub(RatOf(e.cmp), IF e.cmpabs THEN RAbs(d) ELSE d)),
                                      RMul(RAdd(RAbs(v), RAbs(t)), Ten(2 - e.dps)))
\* what the evaluator reports is the model's state
Agrees(x, e, p) == <<
    <<e.n = x.n, p, "number of executed iterations after " \o e.op>>,
    <<SameRatio(e.p, e.q, x.m), p, "p/q is the exact convergent after " \o e.op>>,
    <<x.val => ValueOk(e.val, x.m, e.dps), p, "the value is p/q at working precision after " \o e.op>>,
    <<x.val => ValidOk(e.valid, e.val), p, "a result is valid exactly when it is a nonzero number">>,
    <<x.val => CmpOk(e, x.m), p, "the difference from a target">> >>

\* with logging, every mid-result is on record
Mids(x, e) == e.logged < 0 \/ (/\ e.logged = e.n + 1
                              /\ \A i \in 1..Len(e.mids) : LET d == e.mids[i] IN d.p # "?" /\ SameRatio(d.p, d.q, Gen(x, d.k, FALSE).m))
\* a state the evaluator may be in after generating with convergence information: k iterations were executed
GenChoices(x, n, fin, acc, k) ==
    IF k = n \/ (Limited(x.info, acc) /\ k < n /\ RateEnough(x.info, k, acc)) THEN {Gen(x, k, fin)} ELSE {}
EvStep(x, e) ==
    CASE e.op = "gen" ->
            LET acc == IF IsFin(e.acc) THEN RatOf(e.acc) ELSE RZero IN
            IF e.exc = "ZeroB" THEN
                LET y == [Gen(x, 0, FALSE) EXCEPT !.val = FALSE]
                IN [x |-> y, cs |-> <<<<GenFails(x, e.k), "C01", "ZeroB only at a zero numerator">>>> \o Agrees(y, e, "C02")]
            ELSE IF e.exc # "" THEN [x |-> x, cs |-> <<<<FALSE, "C01", "evaluating raises " \o e.exc>>>>]
            ELSE IF GenChoices(x, e.k, e.fin, acc, e.n) = {} THEN
                [x |-> x, cs |-> <<<<FALSE, IF e.k = e.n THEN "C01" ELSE "C02",
                                     "the number of iterations is the requested one, or what the rate needs">>>>]
            ELSE IF GenFails(x, e.n) THEN [x |-> x, cs |-> <<<<FALSE, "C01", "a zero numerator is reported">>>>]
            ELSE LET y == CHOOSE y \in GenChoices(x, e.k, e.fin, acc, e.n) : TRUE
                 IN [x |-> y, cs |-> Agrees(y, e, IF e.first THEN "C01" ELSE "C02")
                                     \o <<<<Mids(x, e), "C02", "the recorded mid-results are those of every iteration">>>>]
      [] e.op = "add" ->
            LET bad == AddFails(x, e.k)
                y == Add(x, e.k, e.fin)
            IN IF e.exc \notin {"", "ZeroB"} THEN [x |-> x, cs |-> <<<<FALSE, "C01", "evaluating raises " \o e.exc>>>>]
               ELSE [x |-> y, cs |-> <<<<(e.exc = "ZeroB") = bad, "C01", "a zero numerator is reported, and only that">>>>
                                     \o Agrees(y, e, "C02")
                                     \o <<<<Mids(x, e), "C02", "the recorded mid-results are those of every iteration">>>>]
      [] e.op = "reinit" -> [x |-> Reinit(x, Fr(e)), cs |-> <<<<e.exc = "", "C02", "reinitialising">>>>]
      [] e.op = "info" -> [x |-> SetInfo(x, e.type, RatOf(e.base)), cs |-> <<<<e.exc = "", "C02", "setting convergence information">>>>]
      \* convergence estimation runs the evaluator: any order may be left behind, but its state belongs to that order
      [] e.op = "probe" ->
            LET y == Gen(x, e.n, FALSE)
                z == [y EXCEPT !.info = [type |-> e.type, base |-> IF IsFin(e.base) THEN RatOf(e.base) ELSE RZero]]
            IN [x |-> z, cs |-> IF e.exc # "" THEN << >> ELSE Agrees(z, e, "C02")]

---------------------------------------------------------------------------
(* One-shot evaluators.  d bounds the rounding error of the tail in units of the  *)
(* working precision; exact: every tail so far is a small dyadic number.          *)
RECURSIVE IsPow2(_)
IsPow2(s) == s = "1" \/ (BMod(s, "2") = "0" /\ IsPow2(BDiv(s, "2")))
Small(q) == Len(q[1]) <= 12 /\ Len(q[2]) <= 12 /\ IsPow2(q[2])
Unit(dps) == Ten(1 - dps)
TailStep(acc, a, b, u) ==
    IF acc.st # "ok" THEN acc
    ELSE IF RIsZero(acc.v) THEN [acc EXCEPT !.st = IF acc.exact THEN "undef" ELSE "unclear"]
    ELSE LET t == RDiv(b, acc.v)
             r == RAdd(a, t)
         IN IF RIsZero(r) THEN [v |-> r, d |-> "0", st |-> IF acc.exact /\ Small(t) /\ Small(a) THEN "ok" ELSE "unclear",
                                exact |-> acc.exact /\ Small(t) /\ Small(a)]
            ELSE LET d == BAdd(RCeil(RMul(RAbs(RDiv(t, r)), RBig(BAdd(acc.d, "3")))), "3")
                 IN [v |-> r, d |-> d, exact |-> acc.exact /\ Small(t) /\ Small(r),
                     st |-> IF RLt(<<"1", "1000">>, RMul(RBig(d), u)) THEN "unclear" ELSE "ok"]
Tails(as, bs, u) == FoldLeft(LAMBDA acc, j : LET i == Len(bs) + 1 - j IN TailStep(acc, as[i], bs[i], u),
                             [v |-> as[Len(as)], d |-> "1", st |-> "ok", exact |-> Small(as[Len(as)])],
                             [j \in 1..Len(bs) |-> j])
Rats(s) == [i \in 1..Len(s) |-> RatOf(s[i])]
OneShot(e) ==
    LET sizes == IF e.nob THEN TRUE ELSE Len(e.as) \in {Len(e.bs), Len(e.bs) + 1}
    IN IF ~ sizes THEN <<<<e.exc # "" /\ e.exc # "Hang", "C01", "lists of unrelated lengths are refused">>>>
       ELSE LET as0 == Rats(e.as)
                bs == IF e.nob THEN [i \in 1..(Len(as0) - 1) |-> ROne] ELSE Rats(e.bs)
                as == IF Len(as0) = Len(bs) THEN <<RZero>> \o as0 ELSE as0
                u == Unit(e.dps)
                r == Tails(as, bs, u)
            IN IF r.st = "unclear" THEN <<>>
               ELSE IF r.st = "undef" THEN <<<<(e.exc # "" /\ e.exc # "Hang") \/ ~ IsFin(e.val), "C01", "an undefined fraction is not turned into a number">>>>
               ELSE <<<<e.exc = "" /\ IsFin(e.val)
                        /\ RLe(RAbs(RSub(RatOf(e.val), r.v)), RMul(RAbs(r.v), RMul(RBig(r.d), RMul(RInt(2), u)))),
                        "C01", "the one-shot evaluator's number">>>>
Nums(ps, from, to) == [i \in 1..(to - from + 1) |-> [t |-> "f", s |-> Term(ps, from + i - 1), e |-> 0]]
PolyShot(e) == OneShot([as |-> Nums(e.a, 0, e.k - 1), bs |-> Nums(e.b, 1, e.k - 1), nob |-> FALSE,
                        dps |-> e.dps, val |-> e.val, exc |-> e.exc])

Dead == [dead |-> TRUE]
Step(e) ==
    IF e.op = "new" THEN [st |-> [dead |-> FALSE, x |-> NewEval(Fr(e), e.avoid)],
                          cs |-> <<<<e.exc = "", "C01", "creating an evaluator raises " \o e.exc>>,
                                   <<e.n = 0, "C02", "a new evaluator has executed nothing">>>>]
    ELSE IF e.op = "list" THEN [st |-> Dead, cs |-> OneShot(e)]
    ELSE IF e.op = "polys" THEN [st |-> Dead, cs |-> PolyShot(e)]
    ELSE IF st.dead THEN [st |-> st, cs |-> <<>>]
    ELSE LET r == EvStep(st.x, e) IN [st |-> [dead |-> FALSE, x |-> r.x], cs |-> r.cs]
Init == l = 1 /\ st = Dead
Next == /\ l <= Len(Trace)
        /\ LET r == Step(E)
               f == Failed(r.cs)
           IN /\ Report(l, f)
              /\ st' = IF f # <<>> THEN Dead ELSE r.st
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, st>>
==============================================================================
