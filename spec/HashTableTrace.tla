---------------------------- MODULE HashTableTrace ----------------------------
(* Recorded histories of real DecimalHashTable objects (and of the join script)  *)
(* are behaviours of HashTable.                                                  *)
EXTENDS TraceBase, Rat, HashTable
VARIABLES l, st
\* st: tables by name, the case's keys, dead after a contradiction
E == Trace[l]

KeyOf(k, dps) == IF k.k = "num" THEN [k |-> "num", s |-> FixedStr(RatOf(k.v), dps)]
                 ELSE IF k.k = "txt" THEN [k |-> "num", s |-> k.s] ELSE [k |-> "name", s |-> k.s]
Probe(t, keys) == [i \in 1..Len(keys) |-> IF Has(t, keys[i]) THEN [has |-> TRUE, v |-> Get(t, keys[i])]
                                          ELSE [has |-> FALSE, v |-> <<>>]]
Sorted(v) == SortSeq(v, LAMBDA a, b : a < b)
BagProbe(p) == [i \in 1..Len(p) |-> [has |-> p[i].has, v |-> Sorted(p[i].v)]]
\* the outcome of every call: the new table, the returned value, the exception
Out(t, v, exc) == [t |-> t, v |-> v, exc |-> exc]
Outcome(t, e, keys) ==
    LET key == keys[e.key] IN
    CASE e.op = "set" -> Out(Set(t, key, e.v), <<>>, "")
      [] e.op = "get" -> IF Has(t, key) THEN Out(t, Get(t, key), "") ELSE Out(t, <<>>, "KeyError")
      [] e.op = "getd" -> Out(t, IF Has(t, key) THEN Get(t, key) ELSE e.v, "")
      [] e.op = "setd" -> LET u == SetDefault(t, key, e.v) IN Out(u, Get(u, key), "")
      [] e.op = "append" -> LET u == AppendTo(t, key, e.v[1]) IN Out(u, Get(u, key), "")
      [] e.op = "has" -> Out(t, <<IF Has(t, key) THEN 1 ELSE 0>>, "")
      [] e.op = "del" -> IF Has(t, key) THEN Out(Del(t, key), <<>>, "") ELSE Out(t, <<>>, "KeyError")
      [] e.op = "update" -> Out(Update(t, e.v[1]), <<>>, "")
      [] e.op = "pickle" -> Out(t, <<>>, "")
      [] e.op = "bad" -> Out(t, <<>>, "any")
      [] OTHER -> Out(t, <<>>, "")
ExcOk(seen, want) == IF want = "any" THEN seen # "" /\ seen # "Hang" ELSE seen = want

JoinStep(e) ==
    LET a == st.tables[e.t]  b == st.tables[e.o]
        ok == Joinable(a, b)
        j == IF ok THEN Join(a, b) ELSE a
        want == Probe(j, st.keys)
    IN [st |-> [st EXCEPT !.tables[e.t] = j],
        fails |-> Failed(<<
            <<ExcOk(e.exc, IF ok THEN "" ELSE "any"), "C08", IF ok THEN "tables of the same accuracy can be joined" ELSE "tables of different accuracy are refused">>,
            <<e.len = Cardinality(Keys(j)), "C08", "the join has exactly the keys of its parts">>,
            <<e.probes = want, "C08", "every key of the join has exactly the entries of its parts">>,
            <<e.other = Probe(b, st.keys), "C08", "the joined part is left as it was">>,
            <<\A i \in 1..Len(e.rest) : e.rest[i].t = e.t \/ e.rest[i].probes = Probe(st.tables[e.rest[i].t], st.keys),
              "C08", "tables that take no part in the join are left as they were">>,
            <<ok => \A i \in 1..Len(st.keys) : Has(b, st.keys[i]) =>
                 \/ (Shadowed(a, b, j, st.keys[i]) /\ ~ e.finding)
                 \/ (\A n \in 1..Len(Get(b, st.keys[i])) : Contains(e.probes[i].v, Get(b, st.keys[i])[n])),
              "C08", "every entry is reachable by the numbers that reached it in its part">> >>)]

\* the join script: parts in any order, so entries are compared as multisets
RECURSIVE JoinAll(_)
JoinAll(ts) == IF Len(ts) = 1 THEN ts[1] ELSE LET r == JoinAll(Front(ts)) IN Join(r, ts[Len(ts)])
ScriptStep(e) ==
    LET parts == [i \in 1..Len(e.parts) |-> st.tables[e.parts[i]]]
        ok == \A i \in 1..Len(parts) : parts[i].acc = parts[1].acc
        j == IF ok THEN JoinAll(parts) ELSE parts[1]
    IN [st |-> st,
        fails |-> Failed(<<
            <<e.inputs, "C08", "the script leaves its inputs as they were">>,
            <<e.existed => e.outsame, "C08", "an existing output file is left as it was">>,
            <<~ e.existed /\ ok => e.exc = "" /\ e.written, "C08", "parts of the same accuracy are joined into the output file">>,
            <<~ e.existed /\ ~ ok => e.exc # "" /\ ~ e.written, "C08", "parts of different accuracy are refused and no output is written">>,
            <<~ e.existed /\ ok /\ e.written => BagProbe(e.probes) = BagProbe(Probe(j, st.keys)) /\ e.len = Cardinality(Keys(j)),
              "C08", "the written table has exactly the entries of the parts">> >>)]

Step(e) ==
    IF e.op = "new" THEN
        [st |-> [tables |-> (e.t :> NewTable(e.acc)), dead |-> FALSE,
                 keys |-> [i \in 1..Len(e.keys) |-> KeyOf(e.keys[i], e.dps)]],
         fails |-> <<>>]
    ELSE IF st.dead THEN [st |-> st, fails |-> <<>>]
    ELSE IF e.op = "table" THEN
        [st |-> [st EXCEPT !.tables = (e.t :> NewTable(e.acc)) @@ st.tables], fails |-> <<>>]
    ELSE IF e.op = "join" THEN JoinStep(e)
    ELSE IF e.op = "script" THEN ScriptStep(e)
    ELSE LET o == Outcome(st.tables[e.t], e, st.keys)
             want == Probe(o.t, st.keys)
         IN [st |-> [st EXCEPT !.tables[e.t] = o.t],
             fails |-> Failed(<<
                <<ExcOk(e.exc, o.exc), "C07", "call outcome of " \o e.op>>,
                <<e.exc = "" /\ o.exc = "" => e.r = o.v, "C07", "value returned by " \o e.op>>,
                <<e.len = Cardinality(Keys(o.t)), "C07", "number of entries after " \o e.op>>,
                <<e.probes = want, "C07", "numbers reach exactly their own entries after " \o e.op>> >>)]
Init == l = 1 /\ st = [tables |-> <<>>, dead |-> FALSE, keys |-> <<>>]
Next == /\ l <= Len(Trace)
        /\ LET r == Step(E) IN
              /\ Report(l, r.fails)
              /\ st' = [r.st EXCEPT !.dead = @ \/ r.fails # <<>>]
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, st>>
==============================================================================
