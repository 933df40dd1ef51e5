---------------------------------- MODULE Runs ----------------------------------
(* Histories of runs over shared tables and a shared directory of results.           *)
(* tabs[t]: the versions of a table, each a set of enumerated parts; results: what    *)
(* each directory holds; minute: the clock that names the directories.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Latest(vs) == vs[Len(vs)]
\* what a run searches: its own part, and for the others the table's
Searched(vs, op, part) == CASE op = "generate" -> {part} [] op = "expand" -> Latest(vs) \cup {part} [] op = "use" -> Latest(vs)
Allowed(vs, op) == op # "generate" => vs # <<>>
Stored(vs, op, part) == IF op = "use" THEN vs ELSE Append(vs, Searched(vs, op, part))
\* a name of the minute that is not taken
DirName(minute, taken) == IF <<minute, 1>> \notin taken THEN <<minute, 1>>
                          ELSE <<minute, CHOOSE k \in 2..(Cardinality(taken) + 2) : <<minute, k>> \notin taken /\ \A j \in 2..(k - 1) : <<minute, j>> \in taken>>
Put(d, k, v) == [x \in DOMAIN d \cup {k} |-> IF x = k THEN v ELSE d[x]]
==============================================================================
