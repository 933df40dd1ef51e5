---------------------------------- MODULE Mitm ----------------------------------
(* The meet in the middle (enum_params.py): a digit table of post-processed         *)
(* fractions, the click search, and the refinement of the candidates.               *)
(* An entry <<fraction, function>> has the text of its digits, "" when it is not a   *)
(* normal number.                                                                  *)
EXTENDS HashTable
NumOf(s) == [k |-> "num", s |-> s]
Entries(t) == UNION {Range(t.data[k]) : k \in Keys(t)}
Holds(t, e) == e \in Entries(t)
Times(t, e) == Cardinality({<<k, i>> \in {<<k, i>> : k \in Keys(t), i \in 1..20} : i <= Len(t.data[k]) /\ t.data[k][i] = e})
File(t, e, text) == IF text = "" \/ Holds(t, e) THEN t ELSE AppendTo(t, NumOf(text), e)
\* es: a sequence of entries, Dig(e): the digits
Build(t, es, Dig(_)) == FoldLeft(LAMBDA acc, e : File(acc, e, Dig(e)), t, es)
Redefine(t, acc) == Update(t, acc)
Reach(t, text) == IF Has(t, NumOf(text)) THEN Get(t, NumOf(text)) ELSE <<>>

\* is `after' the list `before' without some of its elements?  Must / MayNot / either, by position
\* Same(i, j): after[j] is before[i]
Thinned(nb, na, Same(_, _), Must(_), MayNot(_)) ==
    LET r == FoldLeft(LAMBDA acc, i :
                 IF ~ acc.ok THEN acc
                 ELSE IF Must(i) THEN (IF acc.j <= na /\ Same(i, acc.j) THEN [acc EXCEPT !.j = @ + 1] ELSE [acc EXCEPT !.ok = FALSE])
                 ELSE IF MayNot(i) THEN acc
                 ELSE IF acc.j <= na /\ Same(i, acc.j) THEN [acc EXCEPT !.j = @ + 1] ELSE acc,
                 [ok |-> TRUE, j |-> 1], [i \in 1..nb |-> i])
    IN r.ok /\ r.j = na + 1
==============================================================================
