------------------------------ MODULE PolyRootsMC ------------------------------
(* The exact root rules against brute force, polynomial by polynomial.           *)
EXTENDS PolyEnum
CONSTANTS C, MaxDeg
VARIABLE p
Coef == {ToString(x) : x \in -C..C}
Init == p \in {<<x>> : x \in Coef}
Next == Len(p) <= MaxDeg /\ \E x \in Coef : p' = Append(p, x)
Spec == Init /\ [][Next]_p
IntRoots == {x \in -(C + 2)..(C + 2) : At(p, ToString(x)) = "0"}      \* Cauchy: every root is smaller than C + 2
Rules == IF IsZeroPoly(p) THEN MustReject(p) /\ ~ NoIntRoot(p)
         ELSE /\ MustReject(p) = (Len(Core(p)) <= 3 /\ \E x \in IntRoots : x > 0)
              /\ NoIntRoot(p) => IntRoots = {}
              /\ (Len(Core(p)) <= 3 \/ C < 100) => NoIntRoot(p) = (IntRoots = {})
Degrees == Degree(p) = (IF IsZeroPoly(p) THEN -1 ELSE CHOOSE d \in 0..(Len(p) - 1) : p[d + 1] # "0" /\ \A e \in (d + 1)..(Len(p) - 1) : p[e + 1] = "0")
==============================================================================
