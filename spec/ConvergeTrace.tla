------------------------------ MODULE ConvergeTrace ------------------------------
(* C13: recorded classifications and filters of the real code against Converge.       *)
EXTENDS TraceBase, Converge
VARIABLES l, dead, memo
E == Trace[l]
Frac(x) == [a |-> x.a, b |-> x.b]

EstimateClauses(e, judge) == <<<<ClassOk(e.c, judge[Frac(e)]), "C13", "the classification is the fraction's own convergence">>>>

\* is `after' the list `before' thinned by keep/drop/open?
Thin(nb, na, Same(_, _), Keep(_), Drop(_)) ==
    LET r == FoldLeft(LAMBDA acc, i :
                 IF ~ acc.ok THEN acc
                 ELSE IF Keep(i) THEN (IF acc.j <= na /\ Same(i, acc.j) THEN [acc EXCEPT !.j = @ + 1] ELSE [acc EXCEPT !.ok = FALSE])
                 ELSE IF Drop(i) THEN acc
                 ELSE IF acc.j <= na /\ Same(i, acc.j) THEN [acc EXCEPT !.j = @ + 1] ELSE acc,
                 [ok |-> TRUE, j |-> 1], [i \in 1..nb |-> i])
    IN r.ok /\ r.j = na + 1
Res(x) == <<x.a, x.b, x.f, x.x, x.val>>
FastClauses(e, judge) ==
    LET B == e.before
        A == e.after
        J(i) == judge[Frac(B[i])]
    IN <<<<Thin(Len(B), Len(A), LAMBDA i, k : Res(B[i]) = Res(A[k]) /\ B[i].conv = A[k].conv,
                LAMBDA i : J(i).fast, LAMBDA i : J(i).ends \/ J(i).slow),
         "C13", "exactly the fast converging fractions are kept, in order and unchanged">>>>
TypeClauses(e, judge) ==
    LET B == e.before
        A == e.after
        W == Range(e.list)
        own(i) == e.own[i]
        keep(i) == own(i).exc = "" /\ IF e.kind = "white" THEN own(i).type \in W ELSE own(i).type \notin W \cup {"None"}
        drop(i) == own(i).exc # "" \/ IF e.kind = "white" THEN own(i).type \notin W ELSE own(i).type \in W
    IN <<<<\A i \in 1..Len(B) : ClassOk(own(i), judge[Frac(B[i])]), "C13", "the classification is the fraction's own convergence">>,
         <<Thin(Len(B), Len(A), LAMBDA i, k : Res(B[i]) = Res(A[k]) /\ A[k].conv = [type |-> own(i).type, ps |-> own(i).ps], keep, drop),
           "C13", "exactly the results of the wanted classes are kept, in order, each with its own classification">>>>
Step(e, judge) ==
    CASE e.op = "start" -> <<>>
      [] e.op = "estimate" -> EstimateClauses(e, judge)
      [] e.op = "filter" /\ e.kind \in {"both", "neither"} ->
             <<<<e.exc = "ValueError", "C13", "exactly one list is required">>,
               <<e.after = e.before, "C13", "a refused filter changes nothing">>>>
      [] e.op = "filter" ->
             IF e.exc # "" THEN <<<<FALSE, "C13", "filtering raises " \o e.exc>>>>
             ELSE IF e.kind = "fast" THEN FastClauses(e, judge) ELSE TypeClauses(e, judge)
Fracs(e) == IF e.op = "estimate" THEN {Frac(e)}
            ELSE IF e.op = "filter" /\ e.kind \in {"fast", "white", "black"} THEN {Frac(e.before[i]) : i \in 1..Len(e.before)}
            ELSE {}
Init == l = 1 /\ dead = FALSE /\ memo = << >>
Next == /\ l <= Len(Trace)
        /\ LET skip == dead /\ l > 1 /\ Trace[l - 1].case = E.case
               judge == TLCEval(TLCEval([f \in Fracs(E) \ DOMAIN memo |-> Judge(f)]) @@ memo)
               f == IF skip THEN <<>> ELSE Failed(Step(E, judge))
           IN Report(l, f) /\ dead' = (skip \/ f # <<>>) /\ memo' = judge
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, dead, memo>>
==============================================================================
