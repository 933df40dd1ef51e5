----------------------------- MODULE HashTableMC -----------------------------
(* Every history of a small table: properties C07 and C08 on the design.        *)
(* log is the history itself; with VIEW it does not multiply the states, and     *)
(* Emit prints one test for every transition.                                    *)
EXTENDS HashTable, Json
CONSTANTS Numbers, Names, Accuracies, MaxUpdates, MaxData, MaxLog
VARIABLES t, part, last, log
vars == <<t, part, last, log>>
view == <<t, part>>

Num(s) == [k |-> "num", s |-> s]
Name(s) == [k |-> "name", s |-> s]
AllKeys == {Num(s) : s \in Numbers} \cup {Name(s) : s \in Names}
Do(op, key, v, new) ==
    /\ Len(log) < MaxLog
    /\ t' = new /\ last' = [op |-> op, key |-> key, v |-> v]
    /\ log' = Append(log, [op |-> op, k |-> key.k, x |-> key.s, v |-> v])
NoKey == Name("")

Init == /\ \E a \in Accuracies : t = NewTable(a) /\ part = NewTable(a) /\ log = <<[op |-> "new", k |-> "", x |-> "", v |-> a]>>
        /\ last = [op |-> "new", key |-> NoKey, v |-> 0]
OpSet == \E key \in AllKeys, v \in 1..2 : Do("set", key, v, Set(t, key, <<v>>)) /\ UNCHANGED part
OpDefault == \E key \in AllKeys, v \in 1..2 : Do("append", key, v, AppendTo(t, key, v)) /\ UNCHANGED part
OpDel == \E key \in AllKeys : Has(t, key) /\ Do("del", key, 0, Del(t, key)) /\ UNCHANGED part
OpUpdate == \E a \in Accuracies : Len(t.hist) < MaxUpdates /\ Do("update", NoKey, a, Update(t, a)) /\ UNCHANGED part
\* the table is put aside and another part is begun; later joined
OpPart == /\ part.data = << >> /\ part.hist = <<>> /\ t.data # << >>
          /\ \E a \in Accuracies : Do("part", NoKey, a, NewTable(a))
          /\ part' = t
OpJoin == /\ part.data # << >> /\ Joinable(t, part)
          /\ Do("join", NoKey, 0, Join(t, part)) /\ part' = NewTable(part.acc - 1)
Next == OpSet \/ OpDefault \/ OpDel \/ OpUpdate \/ OpPart \/ OpJoin
Spec == Init /\ [][Next]_vars
Bound == /\ Cardinality(Keys(t)) <= MaxData /\ \A k \in Keys(t) : Len(t.data[k]) <= 2
         /\ Cardinality(Keys(part)) <= MaxData

Lookup(x, key) == IF Has(x, key) THEN Get(x, key) ELSE <<-1>>
SetGet == [][last'.op = "set" => /\ Get(t', last'.key) = <<last'.v>>
                                 \* exactly the numbers that agree to the accuracy in force reach it
                                 /\ \A y \in AllKeys : Agree(y, last'.key, t.acc) =>
                                       (FirstOld(t', y) = <<>> => Get(t', y) = <<last'.v>>)]_vars
\* an operation on a number changes nothing for numbers that address another entry
Frame == [][last'.op \in {"set", "append", "del"} =>
              \A y \in AllKeys : /\ Address(t, y) # Address(t, last'.key)
                                 /\ ~ Agree(y, last'.key, t.acc)
                                 /\ Len(FirstOld(t, last'.key)) <= 1     \* else: shadowed by a join
                                 => Lookup(t', y) = Lookup(t, y)]_vars
UpdateKeeps == [][last'.op = "update" => \A y \in AllKeys : Has(t, y) => Lookup(t', y) = Lookup(t, y)]_vars
Gone == [][last'.op = "del" => Address(t, last'.key) \notin Keys(t')]_vars
\* names are never cut, so different names never meet, nor a name and a number
NamesApart == \A n \in Names : Has(t, Name(n)) => Name(n).s \in Keys(t)
JoinUnion == [][last'.op = "join" =>
                 /\ \A k \in Keys(t) \cup Keys(part) :
                       t'.data[k] = (IF k \in Keys(t) THEN t.data[k] ELSE <<>>) \o
                                    (IF k \in Keys(part) THEN part.data[k] ELSE <<>>)
                 /\ Keys(t') = Keys(t) \cup Keys(part)
                 /\ \A y \in AllKeys : \A p \in {t, part} :
                       Has(p, y) /\ ~ Shadowed(t, p, t', y) =>
                           \A i \in 1..Len(Get(p, y)) : \E j \in 1..Len(Get(t', y)) : Get(t', y)[j] = Get(p, y)[i]
                 \* nothing is shadowed when the accuracies never changed
                 /\ t.hist = <<>> /\ part.hist = <<>> => \A y \in AllKeys : \A p \in {t, part} : ~ Shadowed(t, p, t', y)]_vars
EmitLong == Len(log) = MaxLog => PrintT("TEST " \o ToJson(log))
Emit == PrintT("TEST " \o ToJson(log'))
==============================================================================
