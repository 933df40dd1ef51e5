------------------------------ MODULE UtilsTrace ------------------------------
(* Recorded calls of the meter and the helpers are what Utils says.                *)
EXTENDS TraceBase, Utils
VARIABLES l, st
E == Trace[l]
\* clock readings are recorded in quarters of a second
Meter(e, m) ==
    IF e.exc # "" THEN <<<<FALSE, "C21", "the meter's " \o e.call \o " raises " \o e.exc>>>>
    ELSE <<<<e.call = "start" \/ e.ans = Answer(m, e.call, e.now), "C21",
             "the meter's " \o e.call \o " is not " \o (CASE e.call = "measure" -> "the time since the last reading"
                 [] e.call = "total" -> "the time since the start" [] e.call = "last" -> "the last reading" [] OTHER -> "whether it was started")>>>>
GcdCs(e) ==
    IF e.exc # "" THEN <<<<FALSE, "C21", "gcd raises " \o e.exc>>>>
    ELSE <<<<Divides(e.g, e.a) /\ Divides(e.g, e.b), "C21", "the greatest common divisor divides both">>,
           <<BAbs(e.g) = BGcd(e.a, e.b), "C21", "every common divisor divides the greatest one">>,
           <<e.b = "0" \/ BSign(e.g) = BSign(e.b), "C21", "the greatest common divisor has the sign of the second number">>,
           <<e.g = Gcd(e.a, e.b), "C21", "the greatest common divisor">> >>
SubstCs(e) ==
    IF e.exc # "" THEN <<<<FALSE, "C21", "subs_in_polynom raises " \o e.exc>>>>
    ELSE LET x == IF e.frac THEN RNorm(<<e.x.s, e.xd>>) ELSE RatOf(e.x)
             v == Subst(e.p, x)
         IN IF e.exact THEN <<<<IsFin(e.v) /\ (IF e.frac THEN REq(RNorm(<<e.v.s, e.vd>>), v) ELSE REq(RatOf(e.v), v)), "C21", "substitution of an exact number is exact">>>>
            ELSE <<<<IsFin(e.v) /\ RLe(RAbs(RSub(RatOf(e.v), v)), SubstErr(e.p, x, e.dps)), "C21", "substitution is exact up to the working precision">>>>
GroupCs(e) ==
    IF e.exc # "" THEN <<<<FALSE, "C21", "grouper raises " \o e.exc>>>>
    ELSE <<<<e.groups = Groups(e.items, e.n, e.fill), "C21", "all the items in order, in full groups padded at the end">>>>
Step(e, s) ==
    CASE e.op = "start" -> [st |-> [k \in 1..e.meters |-> Fresh], cs |-> <<>>]
      [] e.op = "meter" -> IF ~ Allowed(s[e.m], e.call) THEN [st |-> s, cs |-> <<>>]
                           ELSE [st |-> [s EXCEPT ![e.m] = After(@, e.call, e.now)], cs |-> Meter(e, s[e.m])]
      [] e.op = "gcd" -> [st |-> s, cs |-> GcdCs(e)]
      [] e.op = "subst" -> [st |-> s, cs |-> SubstCs(e)]
      [] e.op = "group" -> [st |-> s, cs |-> GroupCs(e)]
Init == l = 1 /\ st = <<>>
Next == l <= Len(Trace) /\ (LET r == Step(E, st) IN Report(l, Failed(r.cs)) /\ st' = r.st) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, st>>
==============================================================================
