------------------------------ MODULE TraceBase ------------------------------
(* What every trace specification shares.  A trace is the sequence of calls the *)
(* real code executed, with what it returned; the trace specification steps the *)
(* model along and prints, for every line, the clauses the line contradicts.     *)
(* The verdict is total: after a contradiction the rest of that case is skipped, *)
(* the following cases are still judged.                                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* clauses <<condition, property, text>>: those that fail
Failed(cs) == SelectSeq(cs, LAMBDA c : ~ c[1])
Report(line, cs) == \A i \in 1..Len(cs) : PrintT(<<"FAIL", line, cs[i][2], cs[i][3]>>)
Accepted == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
Bag(s) == [x \in Range(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
SameBag(s, t) == Len(s) = Len(t) /\ Bag(s) = Bag(t)
NoDup(s) == Cardinality(Range(s)) = Len(s)
==============================================================================
