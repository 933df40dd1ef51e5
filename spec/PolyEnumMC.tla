------------------------------ MODULE PolyEnumMC ------------------------------
(* The enumerator as a machine: nested odometers over the coefficients of a and  *)
(* b yield one pair per step; what it has yielded when it stops is the described  *)
(* family, and the announced length was not exceeded.                            *)
EXTENDS PolyEnum, Json
CONSTANTS Ranges, Kinds, Prune
VARIABLES cfg, i, j, out
vars == <<cfg, i, j, out>>
Small == {<<0, 0>>, <<0, 1>>, <<0, 2>>, <<-1, 2>>}
OnePoly == {<<x>> : x \in Small} \cup {<<x, y>> : x \in Small, y \in {<<0, 2>>, <<1, 2>>}}
                \cup {<<<<0, 1>>, x, <<1, 2>>>> : x \in {<<-1, 1>>, <<0, 2>>}}
OneRange == {<<p>> : p \in OnePoly}
TwoRange == {<<p, q>> : p, q \in {<<<<0, 2>>, <<1, 2>>>>, <<<<0, 2>>, <<0, 2>>>>}}
AllRanges == IF Ranges = "one" THEN OneRange ELSE OneRange \cup TwoRange
Configs == [kind : Kinds, a : AllRanges, b : AllRanges, na : {2, 3}, nb : {3}, exp : BOOLEAN, roots : BOOLEAN]
SparseOk(c) == c.kind = "sparse" => /\ \A t \in 1..Len(c.a) : Len(c.a[t]) = Len(c.a[1])
                                    /\ \A t \in 1..Len(c.b) : Len(c.b[t]) = Len(c.b[1])
Relevant(c) == c.kind # "sparse" => c.na = 2
As == Families(cfg.kind, cfg.a, cfg.na)
Bs == Families(cfg.kind, cfg.b, cfg.nb)
Size(r) == FoldLeft(LAMBDA acc, p : acc * FoldLeft(LAMBDA x, c : x * (c[2] - c[1]), 1, p), 1, r)
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
RECURSIVE Choose(_, _)
Choose(n, k) == IF k > n THEN 0 ELSE IF k = 0 THEN 1 ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)
Announced == Size(cfg.a) * Size(cfg.b) *
             (IF cfg.kind = "sparse" THEN Pow(Choose(cfg.na, Len(cfg.a[1])), Len(cfg.a)) * Pow(Choose(cfg.nb, Len(cfg.b[1])), Len(cfg.b)) ELSE 1)
Passes(a, b) == (cfg.roots => ~ FamilyRejected(b)) /\ (cfg.exp => DegreesAllow(a, b))
Init == cfg \in {c \in Configs : SparseOk(c) /\ Relevant(c)} /\ i = 1 /\ j = 0 /\ out = <<>>
Next == /\ ~ Prune
        /\ i <= Len(As)
        /\ IF j < Len(Bs) THEN /\ j' = j + 1 /\ i' = i
                               /\ out' = IF Passes(As[i], Bs[j + 1]) THEN Append(out, <<As[i], Bs[j + 1]>>) ELSE out
           ELSE j' = 0 /\ i' = i + 1 /\ out' = out
        /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars
Done == i > Len(As)
Described == {<<a, b>> : a \in Range(As), b \in Range(Bs)}
NoRepetition == cfg.kind # "sparse" => Cardinality(Range(out)) = Len(out)
Exact == Done => Range(out) = {p \in Described : Passes(p[1], p[2])}
Bounded == Len(out) <= Announced
NoTerminating == cfg.roots => \A n \in 1..Len(out) : \A t \in 1..Len(out[n][2]) :
                    Len(Core(out[n][2][t])) <= 3 => \A x \in 1..9 : At(out[n][2][t], ToString(x)) # "0"
\* the exact rules against brute force
RootRules == i = 1 /\ j = 0 => \A b \in Range(Bs) : \A t \in 1..Len(b) :
    /\ MustReject(b[t]) = (Len(Core(b[t])) <= 3 /\ \E x \in 1..9 : At(b[t], ToString(x)) = "0")
    /\ NoIntRoot(b[t]) = (\A x \in -9..9 : At(b[t], ToString(x)) # "0")
Emit == PrintT("TEST " \o ToJson(cfg))
==============================================================================
