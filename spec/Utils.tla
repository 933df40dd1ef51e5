--------------------------------- MODULE Utils ---------------------------------
(* The run-time meter, and the arithmetic and iteration helpers.                  *)
EXTENDS Integers, Sequences, SequencesExt, Poly

(* ---- the meter: readings of a clock ---- *)
Fresh == [started |-> FALSE, start |-> 0, last |-> 0, lap |-> 0, read |-> FALSE]
Start(m, now) == IF m.started THEN m ELSE [Fresh EXCEPT !.started = TRUE, !.start = now, !.last = now]
Read(m, now) == [m EXCEPT !.last = now, !.lap = now - m.last, !.read = TRUE]
Total(m, now) == now - m.start
\* what an operation may be called on, what it leaves, what it answers (-1: nothing)
Allowed(m, op) == CASE op \in {"start", "is_started"} -> TRUE [] op = "last" -> m.read [] OTHER -> m.started
After(m, op, now) == CASE op = "start" -> Start(m, now) [] op = "measure" -> Read(m, now) [] OTHER -> m
Answer(m, op, now) == CASE op = "start" -> -1 [] op = "measure" -> now - m.last [] op = "total" -> Total(m, now)
                        [] op = "last" -> m.lap [] OTHER -> IF m.started THEN 1 ELSE 0

(* ---- the greatest common divisor, with the sign of b (of a when b is zero) ---- *)
Divides(d, n) == IF d = "0" THEN n = "0" ELSE BMod(n, d) = "0"
Gcd(a, b) == IF b = "0" THEN a ELSE IF BSign(b) < 0 THEN BNeg(BGcd(a, b)) ELSE BGcd(a, b)

REq(p, q) == RCmp(p, q) = 0
(* ---- substitution in a polynomial ---- *)
Subst(p, x) == PEval(p, x)
\* the bound of what rounding may do to a sum of products in a working precision of dps digits
SubstErr(p, x, dps) == RMul(PEvalAbs(p, x), RMul(RBig(ToString(4 * (Len(p) + 2))), Ten(1 - dps)))

(* ---- grouping ---- *)
Groups(s, n, fill) == LET k == (Len(s) + n - 1) \div n
                      IN [i \in 1..k |-> [j \in 1..n |-> LET x == (i - 1) * n + j IN IF x <= Len(s) THEN s[x] ELSE fill]]
==============================================================================
