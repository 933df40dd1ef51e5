-------------------------------- MODULE PipelineMC -------------------------------
(* Every list of candidates, every point of interruption: what is exported.          *)
EXTENDS Pipeline
CONSTANTS N, Classes
VARIABLES list,      \* what the search found
          pub,       \* the published list: what an export writes
          at,        \* the stage in progress
          i, work,   \* the next element and what the stage has kept so far
          status     \* "run", "cancelled", "raised", "done"
vars == <<list, pub, at, i, work, status>>
\* one identity's candidates share the facts about the fraction and agree alike once
\* they agree to more digits than a coincidence would
Attr == [agree : 0..3, fast : BOOLEAN, root : BOOLEAN]
Cands == {[cls |-> k, agree |-> a.agree, fast |-> a.fast, root |-> a.root] : k \in Classes, a \in Attr}
Congruent(l) == \A p, q \in 1..Len(l) : l[p].cls = l[q].cls => l[p] = l[q]
Init == /\ list \in {l \in UNION {[1..n -> Cands] : n \in 0..N} : Congruent(l)}
        /\ pub = list /\ at = 1 /\ i = 1 /\ work = <<>> /\ status = "run"
Element == /\ status = "run" /\ at <= Len(Stages) /\ i <= Len(pub)
           /\ work' = IF KeptBy(Stages[at], pub[i], work) THEN Append(work, pub[i]) ELSE work
           /\ i' = i + 1 /\ UNCHANGED <<list, pub, at, status>>
Publish == /\ status = "run" /\ at <= Len(Stages) /\ i > Len(pub)
           /\ pub' = work /\ work' = <<>> /\ i' = 1 /\ at' = at + 1
           /\ status' = IF at = Len(Stages) THEN "done" ELSE "run"
           /\ UNCHANGED list
Interrupt == /\ status = "run"
             /\ status' = IF at >= FirstCancellable THEN "cancelled" ELSE "raised"
             /\ UNCHANGED <<list, pub, at, i, work>>
Next == Element \/ Publish \/ Interrupt
Spec == Init /\ [][Next]_vars
Exports == status \in {"cancelled", "done"}
\* what is exported is the whole output of the last completed stage
WholeStage == pub = After(at - 1, list)
OnlyConfirmed == Exports => \A k \in 1..Len(pub) : Confirmed(pub[k], at - 1)
\* nothing confirmed is lost: it is there, or its identity is
NothingLost == Exports => \A k \in 1..Len(list) : Confirmed(list[k], at - 1) =>
                   \E j \in 1..Len(pub) : pub[j].cls = list[k].cls
\* nothing the second filtering confirmed is lost by a cancellation before the third has ended
Cancelled == status = "cancelled" /\ at = FirstCancellable => \A k \in 1..Len(After(5, list)) : After(5, list)[k] \in Range(pub)
\* a finished run reports every true identity
Reported == status = "done" => \A k \in 1..Len(list) : Confirmed(list[k], Len(Stages)) => \E j \in 1..Len(pub) : pub[j].cls = list[k].cls
NoRepeats == Exports /\ at > 2 => \A j, k \in 1..Len(pub) : j # k => pub[j].cls # pub[k].cls
OrderKept == \E f \in [1..Len(pub) -> 1..Len(list)] : \A k \in 1..Len(pub) : pub[k] = list[f[k]] /\ (k > 1 => f[k - 1] < f[k])
==============================================================================
