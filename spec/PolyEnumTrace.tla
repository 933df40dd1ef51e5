---------------------------- MODULE PolyEnumTrace ----------------------------
(* What the real enumerators yielded, what the real filters dropped and what the *)
(* purge script wrote agree with PolyEnum.                                       *)
EXTENDS TraceBase, Rat, PolyEnum
CF == INSTANCE ContFrac
VARIABLES l, tick
E == Trace[l]

Mult(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
\* does a zero numerator end the fraction within n iterations
Ends(a, b, n) == \E i \in 1..n : CF!Term(b, i) = "0"
Enumeration(e) ==
    LET As == Families(e.kind, e.ra, e.na)
        Bs == Families(e.kind, e.rb, e.nb)
        Aset == Range(As)
        Bset == Range(Bs)
        Y == e.out
        Yset == Range(Y)
        zero(a, b) == e.gen /\ e.avoid /\ Ends(a, b, e.iters)
        allowed(a, b) == (e.exp => DegreesAllow(a, b)) /\ ~ zero(a, b)
        dropB == {b \in Bset : \E a \in Aset : allowed(a, b) /\ <<a, b>> \notin Yset}
        keepB == {y[2] : y \in Yset}
        times(y) == Mult(As, y[1]) * Mult(Bs, y[2])
    IN IF e.exc # "" THEN <<<<FALSE, "C03", "enumerating raises " \o e.exc>>>>
       ELSE <<
        <<\A y \in Yset : y[1] \in Aset /\ y[2] \in Bset, "C03", "every yielded pair is described by the range">>,
        <<\A y \in Yset : y[1] \in Aset /\ y[2] \in Bset => allowed(y[1], y[2]), "C03",
          "pairs whose degrees do not allow it, or that end, are not yielded">>,
        <<IF e.kind = "sparse" THEN \A y \in Yset : Mult(Y, y) = times(y) ELSE Cardinality(Yset) = Len(Y), "C03",
          "every pair is yielded as often as it is described">>,
        <<~ e.roots => dropB = {}, "C03", "every described pair is yielded">>,
        <<e.roots => dropB \cap keepB = {}, "C03", "a pair is left out only because of its own b">>,
        <<\A b \in dropB : ~ FamilyRootFree(b), "C03", "every pair whose b has no integer root is yielded">>,
        <<e.len >= Len(Y), "C03", "the announced length is at least the number of pairs">>,
        <<\A i \in 1..Len(e.conv) :
            LET m == CF!Steps([a |-> Y[i][1], b |-> Y[i][2]], CF!Mat0([a |-> Y[i][1], b |-> Y[i][2]]), 0, e.iters, FALSE).m
                c == e.conv[i]
            IN BMul(c[1], m[3]) = BMul(c[2], m[1]) /\ (c[2] = "0") = (m[3] = "0"),
          "C03", "the evaluator yielded with a pair evaluates that pair">>,
        <<e.roots => \A b \in keepB : ~ FamilyRejected(b), "C04", "no enumerated b has a positive integer root">>,
        <<\A b \in dropB : ~ FamilyRootFree(b), "C04", "no b without integer roots is dropped by the enumeration">> >>

\* cand: for every polynomial a number that may be a root of it
Final(e) ==
    LET n == Len(e.bs)
        kept == Range(e.kept)
        root(i) == \E j \in 1..Len(e.bs[i]) : e.cand[i][j] # "" /\ BSign(e.cand[i][j]) > 0 /\ At(e.bs[i][j], e.cand[i][j]) = "0"
    IN IF e.exc # "" THEN <<<<FALSE, "C04", "the final root filter raises " \o e.exc>>>>
       ELSE <<
        <<\A i \in 1..(Len(e.kept) - 1) : e.kept[i] < e.kept[i + 1], "C04", "the final filter keeps the order and repeats nothing">>,
        <<kept \subseteq 1..n, "C04", "the final filter only drops">>,
        <<\A i \in 1..n : root(i) => i \notin kept, "C04", "the final filter drops every b with a positive integer root">>,
        <<\A i \in 1..n : FamilyRootFree(e.bs[i]) => i \in kept, "C04", "the final filter keeps every b without integer roots">>,
        <<e.same, "C04", "the kept results are unchanged">> >>

\* entries: <<key, <<identity, family>>...>>; rej: what the enumeration filter says of every family
Purge(e) ==
    LET bad(f) == \E i \in 1..Len(e.rej) : e.rej[i].f = f /\ e.rej[i].r
        want == SelectSeq([k \in 1..Len(e.before) |->
                              [key |-> e.before[k].key,
                               es |-> SelectSeq(e.before[k].es, LAMBDA x : ~ bad(x.f))]],
                          LAMBDA x : x.es # <<>>)
    IN IF e.exc # "" THEN <<<<FALSE, "C04", "the purge raises " \o e.exc>>>>
       ELSE <<
        <<Range(e.after) = Range(want) /\ Len(e.after) = Len(want), "C04", "the purge removes exactly the entries the enumeration rejects">>,
        <<e.named, "C04", "the purge keeps the named entries">>,
        <<e.input, "C04", "the purge leaves its input file as it was">>,
        <<\A i \in 1..Len(e.rej) : /\ FamilyRejected(e.rej[i].f) => e.rej[i].r
                                   /\ FamilyRootFree(e.rej[i].f) => ~ e.rej[i].r, "C04", "the enumeration filter">> >>
Clauses(e) == CASE e.op = "enum" -> Enumeration(e) [] e.op = "final" -> Final(e) [] e.op = "purge" -> Purge(e)
Init == l = 1 /\ tick = 0
Next == l <= Len(Trace) /\ Report(l, Failed(Clauses(E))) /\ l' = l + 1 /\ tick' = 1 - tick
Spec == Init /\ [][Next]_<<l, tick>>
==============================================================================
