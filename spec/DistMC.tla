--------------------------------- MODULE DistMC ---------------------------------
EXTENDS Dist, Json
CONSTANTS N, Ms, MaxStores, MaxEvents, Ended, Patient \* Patient: joined once every part is stored
VARIABLES m, stored, joined, clean, found, log
vars == <<m, stored, joined, clean, found, log>>
Parts == 1..m
None == [t |-> FALSE, b |-> Empty]
Init == m = 0 /\ stored = <<>> /\ joined = None /\ clean = None /\ found = {} /\ log = <<>>
More(e) == Len(log) < MaxEvents /\ log' = Append(log, e)
Stores(k) == Cardinality({i \in 1..Len(stored) : stored[i].k = k})
Distribute == m = 0 /\ \E x \in Ms : m' = x /\ More([do |-> "distribute", x |-> x]) /\ UNCHANGED <<stored, joined, clean, found>>
\* a part may be run again: another version of its table
Store == m > 0 /\ \E k \in Parts : /\ Stores(k) < MaxStores
                                   /\ stored' = Append(stored, [k |-> k, b |-> BagOf(DealtTo(N, m, k))])
                                   /\ More([do |-> "part", x |-> k]) /\ UNCHANGED <<m, joined, clean, found>>
\* a part that fails leaves no table
Fail == m > 0 /\ \E k \in Parts : /\ Stores(k) = 0 /\ ~ \E i \in 1..Len(log) : log[i].do = "fail"
                                  /\ More([do |-> "fail", x |-> k]) /\ UNCHANGED <<m, stored, joined, clean, found>>
Join == /\ stored # <<>> /\ ~ joined.t /\ (Patient => \A k \in Parts : Stores(k) > 0)
        /\ joined' = [t |-> TRUE, b |-> SumAll([i \in 1..Len(stored) |-> stored[i].b])]
        /\ More([do |-> "join", x |-> 0]) /\ UNCHANGED <<m, stored, clean, found>>
\* the output exists: refused
Again == joined.t /\ log[Len(log)].do \in {"join", "part"} /\ More([do |-> "join", x |-> 0]) /\ UNCHANGED <<m, stored, joined, clean, found>>
Clean == joined.t /\ ~ clean.t /\ clean' = [t |-> TRUE, b |-> Cleaned(joined.b, Ended)]
         /\ More([do |-> "clean", x |-> 0]) /\ UNCHANGED <<m, stored, joined, found>>
Use == /\ joined.t /\ found' = (IF clean.t THEN DOMAIN clean.b ELSE DOMAIN joined.b)
       /\ More([do |-> "use", x |-> 0]) /\ UNCHANGED <<m, stored, joined, clean>>
Next == Distribute \/ Store \/ Fail \/ Join \/ Again \/ Clean \/ Use
Spec == Init /\ [][Next]_vars

JoinedAt == CHOOSE i \in 1..Len(log) : log[i].do = "join" /\ \A j \in 1..(i - 1) : log[j].do # "join"
Before(k) == Cardinality({i \in 1..(JoinedAt - 1) : log[i].do = "part" /\ log[i].x = k})
Deal == m > 0 => /\ UNION {DealtTo(N, m, k) : k \in Parts} = Cells(N)
                 /\ \A j, k \in Parts : j # k => DealtTo(N, m, j) \cap DealtTo(N, m, k) = {}
\* every part stored once: the joined table is the whole run's
Whole == joined.t /\ (\A k \in Parts : Before(k) = 1) => joined.b = BagOf(Cells(N))
\* every part stored: nothing is missing, whatever was repeated
Complete == joined.t /\ (\A k \in Parts : Before(k) >= 1) => DOMAIN joined.b = Cells(N)
Invents == joined.t => DOMAIN joined.b \subseteq Cells(N) /\ \A c \in DOMAIN joined.b : \E k \in Parts : c \in DealtTo(N, m, k) /\ joined.b[c] = Before(k)
Kept == clean.t => \A c \in Cells(N) : Count(clean.b, c) = IF c \in Ended THEN 0 ELSE Count(joined.b, c)
Once == [][joined.t => joined' = joined]_vars
Emit == Len(log) >= 3 /\ log[Len(log)].do = "use" /\ Cardinality({i \in 1..Len(log) : log[i].do = "use"}) <= 2 => PrintT("TEST " \o ToJson(log))
==============================================================================
