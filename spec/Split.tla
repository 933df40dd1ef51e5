--------------------------------- MODULE Split ---------------------------------
(* Distributing a search: a box is the sequence of the coefficient ranges          *)
(* <<lo, hi>> (hi excluded) of a and b, flattened; a distribution is a sequence of   *)
(* boxes.                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, BigNum
Width(d) == d[2] - d[1]
NonEmpty(box) == \A i \in 1..Len(box) : Width(box[i]) >= 1
Volume(box) == FoldLeft(LAMBDA acc, d : BMul(acc, ToString(Width(d))), "1", box)
Inside(p, box) == Len(p) = Len(box) /\ \A i \in 1..Len(p) : box[i][1] <= p[i][1] /\ p[i][2] <= box[i][2]
Disjoint(p, q) == \E i \in 1..Len(p) : p[i][2] <= q[i][1] \/ q[i][2] <= p[i][1]
Covers(parts, box) == FoldLeft(LAMBDA acc, p : BAdd(acc, Volume(p)), "0", parts) = Volume(box)
Partition(parts, box) ==
    /\ \A i \in 1..Len(parts) : NonEmpty(parts[i]) /\ Inside(parts[i], box)
    /\ \A i, j \in 1..Len(parts) : i < j => Disjoint(parts[i], parts[j])
    /\ Covers(parts, box)
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
IsPow2(n) == n >= 1 /\ 2 ^ Log2(n) = n
\* halvings that every way of halving in the middle supports: those of the first interlaces of a and b
Halvings(box, first) == FoldLeft(LAMBDA acc, i : acc + Log2(Width(box[i])), 0, first)
MustSplit(box, first, n) == IsPow2(n) /\ NonEmpty(box) /\ Halvings(box, first) >= Log2(n)
MustRefuse(box, n) == ~ IsPow2(n) \/ BCmp(Volume(box), ToString(n)) < 0
==============================================================================
