--------------------------------- MODULE MitmMC ---------------------------------
(* Every session of builds, changes of settings, searches and refinements on small   *)
(* numbers: values are signed integers in units of 2^-Bits, digits are binary.        *)
(* C09, C10, C11 on the design.                                                     *)
EXTENDS Integers, Mitm, Json
CONSTANTS Values, Bits, Accuracies, MaxUpdates, MaxSearches, MaxLog
SmallValues == {-6, -1, 3, 5}
MoreValues == {-6, -1, 2, 3, 5, 11}
VARIABLES val, lhs, t, funcs, seen, cands, nsearch, last, log
vars == <<val, lhs, t, funcs, seen, cands, nsearch, last, log>>
view == <<val, lhs, t, funcs, seen, cands, nsearch>>
One == 2 ^ Bits
Abs(x) == IF x < 0 THEN -x ELSE x
FracOf(x) == Abs(x) % One
RECURSIVE Digits(_, _)
Digits(x, n) == IF n = 0 THEN "" ELSE IF 2 * x >= One THEN "1" \o Digits(2 * x - One, n - 1) ELSE "0" \o Digits(2 * x, n - 1)
TextOf(x) == "0." \o Digits(FracOf(x), Bits)
\* the second function is undefined at one number
Fn(f, x) == IF f = 0 THEN x ELSE 7 - x
Defined(f, x) == Fn(f, x) # 0
Fractions == 1..3
Sets == <<{1, 2}, {2, 3}, {1, 2, 3}>>
Dig(e) == IF Defined(e[2], val[e[1]]) THEN TextOf(Fn(e[2], val[e[1]])) ELSE ""
Init == /\ val \in [Fractions -> Values] /\ lhs \in [1..2 -> Values \cup {0}]
        /\ val[1] < val[3] /\ lhs[1] < lhs[2]
        /\ \E a \in Accuracies : t = NewTable(a) /\ log = <<[op |-> "new", x |-> a, f |-> <<0>>]>>
        /\ funcs = {0} /\ seen = << >> /\ cands = {} /\ nsearch = 0 /\ last = ""
Do(op, x, f) == Len(log) < MaxLog /\ log' = Append(log, [op |-> op, x |-> x, f |-> f]) /\ last' = op
OpBuild == \E i \in 1..3 :
    LET es == SetToSeq(Sets[i] \X funcs)
        u == Build(t, es, Dig)
    IN /\ t' = u
       \* ghost: when an entry was first enumerated, the accuracy in force
       /\ seen' = [e \in DOMAIN seen \cup {x \in Range(es) : Dig(x) # ""} |-> IF e \in DOMAIN seen THEN seen[e] ELSE t.acc]
       /\ Do("build", i, <<>>) /\ UNCHANGED <<val, lhs, funcs, cands, nsearch>>
OpRedefine == \E a \in Accuracies, fs \in {{0}, {1}, {0, 1}} :
    /\ Len(t.hist) < MaxUpdates
    /\ t' = Redefine(t, a) /\ funcs' = fs /\ cands' = {}
    /\ Do("redefine", a, SetToSeq(fs)) /\ UNCHANGED <<val, lhs, seen, nsearch>>
\* a candidate: the entry and the corrected left-hand side
Candidates == UNION {{[e |-> e, l |-> l, v |-> lhs[l]] : e \in Range(Reach(t, TextOf(lhs[l])))} : l \in 1..2}
OpSearch == /\ nsearch < MaxSearches /\ cands' = Candidates /\ nsearch' = nsearch + 1
            /\ Do("search", 0, <<>>) /\ UNCHANGED <<val, lhs, t, funcs, seen>>
Sgn(x) == IF x < 0 THEN -1 ELSE 1
RhsOf(c) == Fn(c.e[2], val[c.e[1]])
AgreeTo(x, y, n) == Digits(FracOf(x), n) = Digits(FracOf(y), n)
\* flipped to the sign of the fraction (0 has none), then shifted by the nearest integer
Nint(x) == (2 * x + One) \div (2 * One)
Fix(r, v) == LET s == IF (v < 0 /\ r > 0) \/ (v > 0 /\ r < 0) THEN -v ELSE v
             IN s + Nint(r - s) * One
Refined(cs, n) == {[c EXCEPT !.v = Fix(RhsOf(c), c.v)] : c \in {d \in cs : AgreeTo(RhsOf(d), d.v, n)}}
OpRefine == \E n \in 1..Bits : cands # {} /\ cands' = Refined(cands, n) /\ Do("refine", n, <<>>)
                               /\ UNCHANGED <<val, lhs, t, funcs, seen, nsearch>>
OpReset == /\ t.data # << >> /\ Len(t.hist) = 0 /\ t' = NewTable(t.acc - 1) /\ seen' = << >> /\ Do("reset", 0, <<>>)
           /\ UNCHANGED <<val, lhs, funcs, cands, nsearch>>
Next == OpBuild \/ OpRedefine \/ OpSearch \/ OpRefine \/ OpReset
Spec == Init /\ [][Next]_vars

(* C09 *)
ExactlyOnce == Entries(t) = DOMAIN seen /\ \A e \in DOMAIN seen : Times(t, e) = 1
OwnDigits == \A k \in Keys(t) : \A i \in 1..Len(t.data[k]) :
                \E a \in Range(t.hist) \cup {t.acc} : k = Cut(Dig(t.data[k][i]), a)
(* C10: with one accuracy the candidates are all the pairs that agree to it; in general none is invented, and with
   accuracies that only grew none that agrees to the accuracy in force when the entry was stored is missed *)
Coarsest(h) == CHOOSE a \in h : \A b \in h : a <= b
SoundComplete == [][last' = "search" =>
    /\ \A c \in cands' : Cut(Dig(c.e), Coarsest(Range(t.hist) \cup {t.acc})) = Cut(TextOf(lhs[c.l]), Coarsest(Range(t.hist) \cup {t.acc}))
    /\ t.hist = <<>> => cands' = {[e |-> e, l |-> l, v |-> lhs[l]] : e \in {x \in Entries(t) : TRUE}, l \in 1..2}
                                 \cap {c \in [e : Entries(t), l : 1..2, v : Values \cup {0}] :
                                          Cut(Dig(c.e), t.acc) = Cut(TextOf(lhs[c.l]), t.acc)}
    /\ \A c \in cands' : \E k \in Keys(t) : c.e \in Range(t.data[k]) /\ Address(t, NumOf(TextOf(lhs[c.l]))) = k
    /\ \A l \in 1..2, k \in Keys(t) : Address(t, NumOf(TextOf(lhs[l]))) = k => \A e \in Range(t.data[k]) : [e |-> e, l |-> l, v |-> lhs[l]] \in cands']_vars
GrownOnly == \A i \in 1..Len(t.hist) : t.hist[i] <= (IF i = Len(t.hist) THEN t.acc ELSE t.hist[i + 1])
NoMiss == GrownOnly => \A e \in DOMAIN seen : \A l \in 1..2 :
             Cut(Dig(e), t.acc) = Cut(TextOf(lhs[l]), t.acc) => e \in Range(Reach(t, TextOf(lhs[l])))
(* C11 *)
Corrected(n) == \A c \in cands' : /\ c.v * RhsOf(c) >= 0 /\ Abs(c.v - RhsOf(c)) * 2 ^ n < One
Refinement == [][last' = "refine" =>
    LET n == log'[Len(log')].x IN
    /\ Corrected(n)
    \* exactly the true matches, each with its own left-hand side up to sign and integer
    /\ {<<c.e, c.l>> : c \in cands'} = {<<c.e, c.l>> : c \in {d \in cands : AgreeTo(RhsOf(d), lhs[d.l], n)}}
    /\ \A c \in cands' : (c.v - lhs[c.l]) % One = 0 \/ (c.v + lhs[c.l]) % One = 0
    \* repeating it changes nothing
    /\ Refined(cands', n) = cands']_vars
Emit == PrintT("TEST " \o ToJson(log'))
EmitLong == Len(log) = MaxLog => PrintT("TEST " \o ToJson(log))
==============================================================================
