-------------------------------- MODULE SplitMC --------------------------------
(* Cutting any box of a distribution anywhere keeps a partition; cutting every box   *)
(* in the middle of a divisible range succeeds exactly Halvings times.               *)
EXTENDS Split, Json
CONSTANTS MaxDims, MaxW, MaxParts
VARIABLES box, parts, level
vars == <<box, parts, level>>
Dims == {<<lo, lo + w>> : lo \in {-2, 0, 1}, w \in 1..MaxW}
Init == /\ box \in UNION {[1..n -> Dims] : n \in 1..MaxDims}
        /\ parts = <<box>> /\ level = 0
Cut(p, i, m) == << [p EXCEPT ![i] = <<p[i][1], m>>], [p EXCEPT ![i] = <<m, p[i][2]>>] >>
AnyCut == /\ level = 0 /\ Len(parts) < MaxParts
          /\ \E k \in 1..Len(parts), i \in 1..Len(box) : \E m \in (parts[k][i][1] + 1)..(parts[k][i][2] - 1) :
               parts' = SubSeq(parts, 1, k - 1) \o Cut(parts[k], i, m) \o SubSeq(parts, k + 1, Len(parts))
          /\ UNCHANGED <<box, level>>
\* halve every box, each in any divisible range of its own
Middle(d) == {(d[1] + d[2]) \div 2, -((-(d[1] + d[2])) \div 2)}
Halve == /\ level \in 0..3 /\ Len(parts) = 2 ^ level
         /\ \E f \in [1..Len(parts) -> 1..Len(box)] :
              /\ \A k \in 1..Len(parts) : Width(parts[k][f[k]]) >= 2
              /\ \E up \in {1, 2} :
                   LET mid(d) == LET ms == Middle(d) IN IF up = 1 THEN CHOOSE m \in ms : \A n \in ms : m <= n
                                                         ELSE CHOOSE m \in ms : \A n \in ms : m >= n
                   IN parts' = FlattenSeq([k \in 1..Len(parts) |-> Cut(parts[k], f[k], mid(parts[k][f[k]]))])
         /\ level' = level + 1 /\ UNCHANGED box
Next == AnyCut \/ Halve
Spec == Init /\ [][Next]_vars
Bound == Len(parts) <= MaxParts
Partitioned == Partition(parts, box)
All == [i \in 1..Len(box) |-> i]
\* while fewer than Halvings levels were done, every box still has a divisible range
CanGoOn == level > 0 /\ level < Halvings(box, All) => \A k \in 1..Len(parts) : \E i \in 1..Len(box) : Width(parts[k][i]) >= 2
Emit == level = 0 /\ Len(parts) = 1 => PrintT("TEST " \o ToJson(box))
==============================================================================
