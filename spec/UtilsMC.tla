-------------------------------- MODULE UtilsMC --------------------------------
(* Histories of several meters over one clock, and the laws of the helpers.        *)
EXTENDS Utils, Json, FiniteSets
CONSTANTS Meters, MaxOps, Ticks, MaxInt, MaxGroup
VARIABLES clock, m, log, laps
vars == <<clock, m, log, laps>>
Ops == {"start", "measure", "total", "last", "is_started"}
Init == clock = 0 /\ m = [k \in Meters |-> Fresh] /\ log = <<>> /\ laps = [k \in Meters |-> <<>>]
Call(k, op, t) ==
    /\ Len(log) < MaxOps /\ Allowed(m[k], op)
    /\ clock' = clock + t
    /\ m' = [m EXCEPT ![k] = After(@, op, clock')]
    /\ laps' = IF op = "measure" THEN [laps EXCEPT ![k] = Append(@, Answer(m[k], op, clock'))] ELSE laps
    /\ log' = Append(log, [m |-> k, op |-> op, tick |-> t])
Next == \E k \in Meters, op \in Ops, t \in Ticks : Call(k, op, t)
Spec == Init /\ [][Next]_vars
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
\* the readings add up to the time since the start
Telescopes == \A k \in Meters : m[k].started => m[k].last - m[k].start = Sum(laps[k])
LapIsLast == \A k \in Meters : m[k].read => m[k].lap = laps[k][Len(laps[k])]
Independent == [][\A k \in Meters : m'[k] # m[k] => log'[Len(log')].m = k]_vars
OnceStarted == [][\A k \in Meters : m[k].started => m'[k].started /\ m'[k].start = m[k].start]_vars
Emit == Len(log) = MaxOps => PrintT("TEST " \o ToJson(log))

S(i) == ToString(i)
Ints == (0 - MaxInt)..MaxInt
ASSUME GcdLaws == \A a, b \in Ints : LET g == Gcd(S(a), S(b)) IN
    /\ Divides(g, S(a)) /\ Divides(g, S(b))
    /\ \A d \in Ints : d # 0 /\ Divides(S(d), S(a)) /\ Divides(S(d), S(b)) => Divides(S(d), g)
    /\ (b # 0 => BSign(g) = BSign(S(b)))
    \* Euclid's algorithm with remainders that have the divisor's sign
    /\ (b # 0 => g = Gcd(S(b), BMod(S(a), S(b))) \/ BAbs(g) = BAbs(Gcd(S(b), BMod(S(a), S(b)))))
ASSUME SubstLaws == \A a, b, c, x \in (-2)..2 : LET p == <<S(a), S(b)>> q == <<S(c), S(a)>> X == RBig(S(x)) IN
    /\ REq(Subst(PAdd(p, q), X), RAdd(Subst(p, X), Subst(q, X)))
    /\ REq(Subst(PMul(p, q), X), RMul(Subst(p, X), Subst(q, X)))
    /\ REq(Subst(<<S(a), S(b), S(c)>>, X), RBig(S(a + b * x + c * x * x)))
ASSUME GroupLaws == \A len \in 0..MaxGroup, n \in 1..MaxGroup : LET s == [i \in 1..len |-> i] g == Groups(s, n, 0) IN
    /\ \A i \in 1..Len(g) : Len(g[i]) = n
    /\ SelectSeq(FlattenSeq(g), LAMBDA x : x # 0) = s
    /\ Len(g) * n - len \in 0..(n - 1)
==============================================================================
