------------------------------ MODULE HashTable ------------------------------
(* The digit hashtable (decimal_hashtable.py).                                  *)
(*                                                                              *)
(* A table is a record: the accuracy in force (in characters: the decimal point *)
(* is one), the accuracies that were in force before, oldest first, and the     *)
(* stored entries by the text they are filed under.  A number is addressed by   *)
(* its fixed-point notation, cut to the accuracy; a name by itself.             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

NewTable(accuracy) == [acc |-> accuracy + 1, hist |-> <<>>, data |-> << >>]

\* a key: [k |-> "num" | "name", s |-> full text]
Cut(s, a) == IF Len(s) <= a + 1 THEN s ELSE SubSeq(s, 1, a + 1)
KeyIn(key, a) == IF key.k = "num" THEN Cut(key.s, a) ELSE key.s
CurKey(t, key) == KeyIn(key, t.acc)
\* the texts under which a number may have been filed, in order of precedence
OldKeys(t, key) == IF key.k = "num" THEN [i \in 1..Len(t.hist) |-> KeyIn(key, t.hist[i])] ELSE <<>>
Keys(t) == DOMAIN t.data
FirstOld(t, key) == LET o == OldKeys(t, key) IN SelectSeq(o, LAMBDA k : k \in Keys(t))

\* the text of the entry a number addresses (whether or not it exists)
Address(t, key) == LET f == FirstOld(t, key) IN IF f = <<>> THEN CurKey(t, key) ELSE f[1]
Has(t, key) == Address(t, key) \in Keys(t)
Get(t, key) == t.data[Address(t, key)]

Put(d, k, v) == [x \in DOMAIN d \cup {k} |-> IF x = k THEN v ELSE d[x]]
Drop(d, ks) == [x \in DOMAIN d \ ks |-> d[x]]

\* t[key] = v: whatever the number addressed before is replaced by an entry of the accuracy in force
Set(t, key, v) == [t EXCEPT !.data = Put(Drop(t.data, {k \in Range(OldKeys(t, key)) : TRUE}), CurKey(t, key), v)]
Del(t, key) == [t EXCEPT !.data = Drop(t.data, {Address(t, key)})]
SetDefault(t, key, v) == IF Has(t, key) THEN t ELSE Set(t, key, v)
\* t.setdefault(key, []).append(v)
AppendTo(t, key, v) == LET u == SetDefault(t, key, <<>>)
                       IN [u EXCEPT !.data = Put(u.data, Address(u, key), Append(Get(u, key), v))]
Update(t, accuracy) == [t EXCEPT !.hist = Append(t.hist, t.acc), !.acc = accuracy + 1]
\* joining: defined for tables of the same accuracy in force
Joinable(t, o) == t.acc = o.acc
Join(t, o) ==
    [acc |-> t.acc,
     hist |-> t.hist \o SelectSeq(o.hist, LAMBDA a : a \notin Range(t.hist)),
     data |-> [k \in Keys(t) \cup Keys(o) |->
                  IF k \notin Keys(o) THEN t.data[k] ELSE IF k \notin Keys(t) THEN o.data[k]
                  ELSE t.data[k] \o o.data[k]]]
Agree(x, y, a) == KeyIn(x, a) = KeyIn(y, a)
\* an entry a number reached in its part, out of its reach in the join because an entry of another part
\* (which the number also agrees with, to another accuracy) takes precedence: known finding C08-shadow
Shadowed(t, o, j, key) == Has(o, key) /\ Address(j, key) # Address(o, key)
==============================================================================
