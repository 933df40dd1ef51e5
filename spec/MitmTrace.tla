------------------------------- MODULE MitmTrace -------------------------------
(* Recorded sessions of real MITM objects are behaviours of Mitm over the real       *)
(* numbers: builds and expansions (C09), searches (C10), refinements (C11).          *)
EXTENDS TraceBase, Search
VARIABLES l, st
E == Trace[l]
Dead == [dead |-> TRUE]

---------------------------------------------------------------------------
(* C09 *)
BuildClauses(e, s) ==
    LET As == Range(PE!Families(s.kind, e.ra, s.na))
        Bs == Range(PE!Families(s.kind, e.rb, s.nb))
        may == {b \in Bs : ~ PE!FamilyRejected(b)}
        must == {b \in Bs : PE!FamilyRootFree(b)}
        allowed(a, b) == s.exp => PE!DegreesAllow(a, b)
        pairs == {p \in As \X may : allowed(p[1], p[2])}
        old == s.tab.data
        new == TableData(e.dump)
        count == FoldLeft(LAMBDA acc, i : acc + Len(e.dump[i].es), 0, [i \in 1..Len(e.dump) |-> i])
        oldset == UNION {Range(old[k]) : k \in DOMAIN old}
        newset == UNION {Range(new[k]) : k \in DOMAIN new}
        val == [p \in pairs |-> FracValue(p[1], p[2], s.iters, s.dps)]
        fv == [x \in {<<p[1], p[2], f>> : p \in pairs, f \in s.funcs} |-> Apply(x[3], val[<<x[1], x[2]>>], s.dps)]
        acc == s.tab.acc
        added == {<<k, en>> \in UNION {{<<k, en>> : en \in Range(new[k])} : k \in DOMAIN new} : en \notin oldset}
    IN IF e.exc # "" THEN <<<<FALSE, "C09", "building raises " \o e.exc>>>>
       ELSE <<
        <<Cardinality(DOMAIN new) = Len(e.dump) /\ Cardinality(newset) = count, "C09", "no entry is stored twice">>,
        <<\A k \in DOMAIN old : k \in DOMAIN new /\ Range(old[k]) \subseteq Range(new[k]), "C09", "earlier entries stay where they are">>,
        <<\A x \in added : x[2] \in DOMAIN fv, "C09", "only enumerated fractions and selected functions are stored">>,
        <<\A x \in added : x[2] \in DOMAIN fv => fv[x[2]].t # "nan", "C09", "undefined values are not stored">>,
        <<\A x \in added : x[2] \in DOMAIN fv /\ Usable(fv[x[2]], acc, s.dps) =>
              x[1] \in MayFile(s.tab, fv[x[2]], s.frac, s.dps), "C09", "every entry is filed under its own digits">>,
        <<\A x \in DOMAIN fv : x[2] \in must /\ Usable(fv[x], acc, s.dps) => x \in newset, "C09", "no enumerated fraction is missing">>,
        <<e.named, "C09", "named entries are kept">> >>

---------------------------------------------------------------------------
(* C10 *)
SearchClauses(e, s) ==
    LET L == LhsSet(e)
        C == e.cands
        sane == \A j \in 1..Len(C) : C[j].ok /\ Sane(C[j].x)
        lkey == [x \in L |-> KeyOf(x)]
        CX == {C[j].x : j \in 1..Len(C)}
        ckey == [x \in CX |-> KeyOf(x)]
        K == Range(lkey)
        some == [k \in K |-> CHOOSE x \in L : lkey[x] = k]
        many == [k \in K |-> Cardinality({x \in L : lkey[x] = k})]
        val == [k \in K |-> LhsValue(some[k], RatOf(e.t), s.dps)]
        degen == {k \in K : Degenerate(some[k])}
        got == [k \in K |-> LET js == SelectSeq([j \in 1..Len(C) |-> j], LAMBDA j : ckey[C[j].x] = k)
                            IN [i \in 1..Len(js) |-> Entry(C[js[i]])]]
        reach(a) == IF a \in Keys(s.tab) THEN s.tab.data[a] ELSE <<>>
        expected(k, a) == LET r == reach(a) IN [x \in Range(r) |-> many[k] * Cardinality({i \in 1..Len(r) : r[i] = x})]
    IN IF e.exc # "" THEN <<<<FALSE, "C10", "searching raises " \o e.exc>>>>
       ELSE IF ~ sane THEN <<<<FALSE, "C10", "a candidate is an entry with a left-hand side and no convergence yet">>>>
       ELSE <<
        <<\A x \in CX : ckey[x] \in K, "C10", "every candidate's left-hand side is an enumerated one">>,
        <<\A x \in CX : ckey[x] \notin degen, "C10", "degenerate left-hand sides are skipped">>,
        <<\A k \in K \ degen : Usable(val[k], s.tab.acc, s.dps) =>
              \E a \in Addresses(s.tab, val[k], s.frac, s.dps) : Bag(got[k]) = expected(k, a), "C10",
          "the candidates of a left-hand side are exactly the entries it reaches, once each">>,
        <<\A j \in 1..Len(C) : ckey[C[j].x] \in K => Near(C[j].val, val[ckey[C[j].x]]), "C10", "a candidate's left-hand side has its own value">>,
        <<\A j \in 1..Len(C) : C[j].t = e.t, "C10", "a candidate's left-hand side is for the sought constant">>,
        <<e.alone, "C10", "no candidate's left-hand side is shared">>,
        <<TableData(e.dump) = s.tab.data, "C10", "a search leaves the table as it was">> >>

---------------------------------------------------------------------------
(* C11 *)
RefineClauses(e, s) ==
    LET B == e.before
        A == e.after
        verdict == [i \in 1..Len(B) |-> Verdict(e, B[i], s)]
        same(i, j) == /\ B[i].a = A[j].a /\ B[i].b = A[j].b /\ B[i].f = A[j].f /\ B[i].conv = A[j].conv
                      /\ WellFormed(A[j].x) /\ Corr(B[i].x, A[j].x)
        ok == \A j \in 1..Len(A) : A[j].ok
        tol(r) == Ten(1 + (IF s.frac THEN 0 ELSE DecExp(RMax(r.hi, ROne))) - e.N)
        agree(c) == \E r \in RhsValues(e, c, s) :
                       LET lv == LhsValue(c.x, RatOf(e.t), s.dps) IN
                       r.t # "iv" \/ lv.t # "iv" \/
                       /\ RLe(RAbs(RSub(r.lo, lv.lo)), RMul(tol(r), <<"11", "100">>))
                       /\ Near(c.val, lv)
    IN IF e.exc # "" THEN <<<<FALSE, "C11", "refining raises " \o e.exc>>>>
       ELSE IF ~ ok THEN <<<<FALSE, "C11", "a kept candidate is a candidate">>>>
       ELSE <<
        <<Thinned(Len(B), Len(A), same, LAMBDA i : verdict[i] = "keep", LAMBDA i : verdict[i] = "drop"), "C11",
          "exactly the candidates that agree are kept, in order, corrected by sign and integer only">>,
        <<\A j \in 1..Len(A) : agree(A[j]), "C11", "every kept candidate's left-hand side agrees with its fraction as a signed number">> >>

---------------------------------------------------------------------------
Step(e) ==
    CASE e.op = "new" -> [st |-> [dead |-> FALSE, tab |-> NewTable(e.acc), dps |-> e.dps, iters |-> e.iters, funcs |-> Range(e.funcs),
                                  frac |-> e.frac, kind |-> e.kind, na |-> e.na, nb |-> e.nb, exp |-> e.exp],
                          cs |-> <<<<e.exc = "", "C09", "a new table">>>>]
      [] st.dead -> [st |-> st, cs |-> <<>>]
      [] e.op = "build" -> [st |-> [st EXCEPT !.tab.data = TableData(e.dump)], cs |-> BuildClauses(e, st)]
      [] e.op = "redefine" -> [st |-> [st EXCEPT !.tab = Redefine(st.tab, e.acc), !.funcs = Range(e.funcs),
                                                 !.kind = e.kind, !.na = e.na, !.nb = e.nb, !.frac = e.frac],
                               cs |-> <<<<e.exc = "", "C09", "changing the settings raises " \o e.exc>>,
                                        <<TableData(e.dump) = st.tab.data, "C09", "changing the settings keeps the table">>,
                                        <<e.acc2 = e.acc + 1, "C09", "the table's accuracy is the new one">>>>]
      [] e.op = "reset" -> [st |-> [st EXCEPT !.tab = NewTable(st.tab.acc - 1)],
                            cs |-> <<<<e.exc = "" /\ e.dump = <<>>, "C09", "resetting empties the table">>>>]
      [] e.op = "search" -> [st |-> st, cs |-> SearchClauses(e, st)]
      [] e.op = "refine" -> [st |-> st, cs |-> RefineClauses(e, st)]
Init == l = 1 /\ st = Dead
Next == /\ l <= Len(Trace)
        /\ LET r == Step(E)
               f == Failed(r.cs)
           IN Report(l, f) /\ st' = IF f # <<>> THEN Dead ELSE r.st
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, st>>
==============================================================================
