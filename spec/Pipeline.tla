--------------------------------- MODULE Pipeline --------------------------------
(* A full run (main.py): the table, the search, the filters in their order, the       *)
(* stages an interruption may cancel, the results in a directory of their own.        *)
(* A candidate is judged by its attributes; candidates of one class state the same    *)
(* identity.                                                                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

\* the stages in their order; the last ones may be cancelled
Stages == <<"refine1", "uniq", "fast", "type", "refine2", "refine3", "uniq", "uniq", "roots">>
FirstCancellable == 6
\* what a stage asks of one candidate; uniq asks that no earlier kept one states the same
Passes(stage, c) == CASE stage = "refine1" -> c.agree >= 1
                      [] stage = "refine2" -> c.agree >= 2
                      [] stage = "refine3" -> c.agree >= 3
                      [] stage = "fast" -> c.fast
                      [] stage = "type" -> c.fast
                      [] stage = "roots" -> ~ c.root
                      [] OTHER -> TRUE
KeptBy(stage, c, out) == Passes(stage, c) /\ (stage = "uniq" => \A i \in 1..Len(out) : out[i].cls # c.cls)
Stage(stage, list) == FoldLeft(LAMBDA acc, c : IF KeptBy(stage, c, acc) THEN Append(acc, c) ELSE acc, <<>>, list)
\* the list after the first n stages
After(n, list) == FoldLeft(LAMBDA acc, i : Stage(Stages[i], acc), list, [i \in 1..n |-> i])
Confirmed(c, n) == \A i \in 1..n : Passes(Stages[i], c)
==============================================================================
