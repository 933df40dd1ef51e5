---------------------------------- MODULE RunsMC ---------------------------------
EXTENDS Runs, Json
CONSTANTS Tables, Parts, Searches, MaxRuns
VARIABLES tabs, results, minute, log
vars == <<tabs, results, minute, log>>
Init == tabs = [t \in Tables |-> <<>>] /\ results = << >> /\ minute = 0 /\ log = <<>>
Tick == minute < 1 /\ minute' = minute + 1 /\ UNCHANGED <<tabs, results, log>>
Run(t, op, part, s, only) ==
    /\ Len(log) < MaxRuns /\ Allowed(tabs[t], op)
    /\ op = "use" => part = (CHOOSE p \in Parts : TRUE) /\ ~ only
    /\ only => s = (CHOOSE x \in Searches : TRUE)
    /\ tabs' = [tabs EXCEPT ![t] = Stored(@, op, part)]
    /\ results' = IF only THEN results
                  ELSE Put(results, DirName(minute, DOMAIN results), [search |-> s, over |-> Searched(tabs[t], op, part)])
    /\ log' = Append(log, [table |-> t, op |-> op, part |-> part, search |-> s, only |-> only])
    /\ UNCHANGED minute
Next == Tick \/ \E t \in Tables, op \in {"generate", "expand", "use"}, p \in Parts, s \in Searches, only \in BOOLEAN : Run(t, op, p, s, only)
Spec == Init /\ [][Next]_vars
\* every search has left a directory of its own
OwnDirectory == Cardinality(DOMAIN results) = Cardinality({k \in 1..Len(log) : ~ log[k].only})
\* an expanded table holds its own runs since it was generated, and nothing else
Since(t) == LET g == {k \in 1..Len(log) : log[k].table = t /\ log[k].op = "generate"} IN IF g = {} THEN 0 ELSE CHOOSE k \in g : \A j \in g : j <= k
Grown == \A t \in Tables : tabs[t] # <<>> =>
            Latest(tabs[t]) = {log[k].part : k \in {k \in 1..Len(log) : log[k].table = t /\ k >= Since(t) /\ log[k].op # "use"}}
Untouched == [][/\ \A d \in DOMAIN results : d \in DOMAIN results' /\ results'[d] = results[d]
                /\ \A t \in Tables : Len(tabs[t]) <= Len(tabs'[t]) /\ \A k \in 1..Len(tabs[t]) : tabs'[t][k] = tabs[t][k]]_vars
Searching == \E k \in 1..Len(log) : ~ log[k].only
Emit == Len(log) = MaxRuns /\ minute = 0 /\ Searching => PrintT("TEST " \o ToJson(log))
==============================================================================
