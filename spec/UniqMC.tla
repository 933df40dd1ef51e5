--------------------------------- MODULE UniqMC ---------------------------------
(* The uniqueness filter: keep a result unless an earlier kept one is equivalent.  *)
(* The equivalences the code tests (ULCD ratio, equal reduced functions up to a     *)
(* constant) only merge results that state the same identity.                      *)
EXTENDS Lhs
CONSTANTS C, N
VARIABLES todo, kept, all
vars == <<todo, kept, all>>
As == {<<<<"1", "2">>>>, <<<<"-1", "-2">>>>, <<<<"3">>>>}
B0 == <<<<"0", "1">>>>
Cs == -C..C
RatioEq(p, q) == \* (u, l, c, d) ~ (ru, l/r, rc, rd), r = |d1/d2|
    LET r == RAbs(RFrac(p[4], q[4]))
        Is(s) == /\ RBig(p[1]) = RMul(RBig(BMul(s, q[1])), r)
                 /\ RBig(p[2]) = RDiv(RBig(BMul(s, q[2])), r)
                 /\ RBig(p[3]) = RMul(RBig(BMul(s, q[3])), r)
    IN Is("1") \/ Is("-1")
SignEq(p, q) == \E s \in {"1", "-1"} : p[1] = BMul(s, q[1]) /\ p[2] = BMul(s, q[2]) /\ p[3] = BMul(s, q[3]) /\ BAbs(p[4]) = BAbs(q[4])
Equiv(r, s) ==
    IF r.kind # s.kind THEN FALSE
    ELSE IF r.kind = "ulcd" THEN
        IF r.pf # 0 \/ s.pf # 0 THEN r.a = s.a /\ r.b = s.b /\ r.raw = s.raw /\ r.pf = s.pf
        ELSE r.b = s.b /\ (r.a = s.a \/ r.a = NegFamily(s.a)) /\ (SignEq(r.raw, s.raw) \/ RatioEq(r.raw, s.raw))
    ELSE /\ r.b = s.b /\ (r.a = s.a \/ r.a = NegFamily(s.a))
         /\ \/ (r.pf = s.pf /\ FConst(FSub(r.f, s.f)))
            \/ (Reciprocal(r.pf, s.pf) /\ s.f[1] # <<>> /\ FConst(FSub(r.f, FInv(s.f))))
U(u, l, c, d, pf, a) == LET p == <<ToString(u), ToString(l), ToString(c), ToString(d)>>
                        IN [kind |-> "ulcd", raw |-> p, f |-> UlcdFunc(p[1], p[2], p[3], p[4]), pf |-> pf, a |-> a, b |-> B0]
Q(n, d, k, pf, a) == [kind |-> "rat", raw |-> <<n, d, k>>, f |-> RatFunc(n, d, k), pf |-> pf, a |-> a, b |-> B0]
Results == {U(u, l, c, d, pf, a) : u \in {0, 1, 2}, l \in {-1, 1, 2}, c \in {0, 1}, d \in {-1, 2}, pf \in {0, 3}, a \in As}
           \cup {Q(n, d, k, pf, a) : n \in {<<"0", "1">>, <<"1", "1">>, <<"2">>}, d \in {<<"1">>, <<"0", "2">>, <<"1", "-1">>}, k \in {"0", "1"}, pf \in {0, 1}, a \in As}
Init == todo = <<>> /\ kept = <<>> /\ all = <<>>
Few == {U(1, 1, 0, 2, 0, <<<<"1", "2">>>>), U(-1, -1, 0, 2, 0, <<<<"-1", "-2">>>>), U(1, 1, 1, 2, 0, <<<<"1", "2">>>>),
        Q(<<"0", "1">>, <<"1">>, "0", 0, <<<<"1", "2">>>>), Q(<<"1", "1">>, <<"1">>, "0", 0, <<<<"-1", "-2">>>>),
        Q(<<"1">>, <<"0", "1">>, "0", 1, <<<<"1", "2">>>>), Q(<<"2">>, <<"0", "1">>, "0", 0, <<<<"1", "2">>>>)}
Next == /\ Len(all) < N
        /\ \E r \in Few : /\ all' = Append(all, r)
                          /\ kept' = IF \E i \in 1..Len(kept) : Equiv(kept[i], r) THEN kept ELSE Append(kept, r)
        /\ UNCHANGED todo
Spec == Init /\ [][Next]_vars
Sound == Len(all) = 0 => \A r, s \in Results : r.kind = s.kind /\ Equiv(r, s) => Merged(r, s)
Reflexive == Len(all) = 0 => \A r \in Results : Equiv(r, r)
NothingLost == \A i \in 1..Len(all) : \E j \in 1..Len(kept) : kept[j] = all[i] \/ Merged(kept[j], all[i])
FirstKept == all # <<>> => kept[1] = all[1]
Again == \A i \in 1..Len(kept) : \A j \in 1..(i - 1) : ~ Equiv(kept[j], kept[i])
==============================================================================
