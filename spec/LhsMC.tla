--------------------------------- MODULE LhsMC ---------------------------------
(* Every transformation history of small left-hand sides keeps the parameters in  *)
(* step with the function they denote.                                           *)
EXTENDS Lhs, Json
CONSTANTS C, MaxLog, MaxDeg
VARIABLES x, f, log
vars == <<x, f, log>>
view == <<x, f, Len(log)>>
Cs == {ToString(i) : i \in -C..C}
Vecs(n) == UNION {[1..m -> Cs] : m \in 1..n}
Ulcd0 == {[kind |-> "ulcd", p |-> <<u, l, c, d>>] : u \in Cs, l \in Cs \ {"0"}, c \in {"0", "1"}, d \in {"1", "2"}}
Rat0 == {[kind |-> "rat", n |-> n, d |-> d, k |-> k] : n \in Vecs(MaxDeg), d \in {v \in Vecs(MaxDeg) : PTrim(v) # <<>>}, k \in {"0"}}
Start(y) == [op |-> "new", x |-> y]
Init == x \in Ulcd0 \cup Rat0 /\ f = Func(x) /\ log = <<Start(x)>>
Ev(op, n) == [op |-> op, n |-> n]
DoFlip == x' = Flip(x) /\ f' = FNeg(f) /\ log' = Append(log, Ev("flip", "0"))
DoAdd == \E n \in {"-2", "3"} : x' = AddInt(x, n) /\ f' = FAddInt(f, n) /\ log' = Append(log, Ev("add", n))
DoCanon == x' = Canon(x) /\ f' = f /\ log' = Append(log, Ev("canon", "0"))
\* reinitialising forgets everything: other parameters of the same kind
Other == IF x.kind = "ulcd" THEN {[kind |-> "ulcd", p |-> <<"1", "-1", "0", "3">>]}
         ELSE {[kind |-> "rat", n |-> <<"1", "1">>, d |-> <<"0", "1">>, k |-> "2"], [kind |-> "rat", n |-> <<"-1", "0", "1">>, d |-> <<"1", "1">>, k |-> "0"]}
DoReinit == \E y \in Other : x' = y /\ f' = Func(y) /\ log' = Append(log, [op |-> "reinit", x |-> y])
Next == Len(log) < MaxLog /\ (DoFlip \/ DoAdd \/ DoCanon \/ DoReinit)
Spec == Init /\ [][Next]_vars
Denotes == FEq(Func(x), f)
CanonReduced == log[Len(log)].op = "canon" => Reduced(x)
CanonStable == Reduced(x) /\ x.kind = "rat" => FEq(Func(Canon(x)), f) /\ Len(Canon(x).n) = Len(PTrim(x.n))
\* degeneracy is a property of the function, not of the parameters
DegenerateByFunction == x.kind = "rat" => Degenerate(x) = FConst(f)
Emit == PrintT("TEST " \o ToJson(log'))
==============================================================================
