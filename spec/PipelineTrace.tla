------------------------------ MODULE PipelineTrace ------------------------------
(* Full runs of the real program: histories over shared tables and results (C20), and *)
(* runs that are interrupted in their cancellable part (C22).                        *)
EXTENDS TraceBase, Search
RU == INSTANCE Runs
CV == INSTANCE Converge
EX == INSTANCE Export
DI == INSTANCE Dist
CFG == INSTANCE Config
CO == INSTANCE Consts
VARIABLES l, st
E == Trace[l]
Dps == 50
S0 == [dps |-> Dps, frac |-> TRUE]
Short1(name) == IF name = "euler_masch" THEN "euler" ELSE name
TargetName(e) == IF e.const \in {"feig", "percolation"} THEN e.const \o ", " \o ToString(e.i) ELSE e.const
Target(e) == ILo(CO!Number(Short1(e.const), e.i), CO!CD)
\* (what was stored at a finer accuracy is only reached by numbers that agree that far)
MaxP(e, tab) == LET p == {e.hprec, e.p1, e.p2, e.p3} \cup Range(tab.accs) IN CHOOSE x \in p : \A y \in p : y <= x

---------------------------------------------------------------------------
(* what a table holds after a run: the entries it must and those it may hold *)
Entries1(e, exp) ==
    LET As == Range(PE!Families(e.kind, e.ra, e.na))
        Bs == Range(PE!Families(e.kind, e.rb, e.nb))
        of(bs) == {<<p[1], p[2], f>> : p \in {p \in As \X bs : exp => PE!DegreesAllow(p[1], p[2])}, f \in Range(e.funcs)}
    IN [must |-> of({b \in Bs : PE!FamilyRootFree(b)}), may |-> of({b \in Bs : ~ PE!FamilyRejected(b)})]
NewTab(e) == LET x == Entries1(e, TRUE) IN [must |-> x.must, may |-> x.may, iters |-> e.hiters, accs |-> <<e.hprec>>]
Tab(e, old) == CASE e.oper = "generate" -> NewTab(e)
                 [] e.oper = "use" -> old
                 [] OTHER -> LET x == Entries1(e, TRUE) IN
                             [must |-> old.must \cup x.must, may |-> old.may \cup x.may, iters |-> old.iters, accs |-> Append(old.accs, e.hprec)]
\* an accuracy that comes back after another one hides numbers stored meanwhile
Returns(accs) == \E i, j \in 1..Len(accs) : i < j /\ accs[i] = accs[j] /\ \E k \in i..j : accs[k] # accs[i]

---------------------------------------------------------------------------
(* numbers *)
Val(en, n) == Apply(en[3], ConvValue(en[1], en[2], n, Dps), Dps)
\* the digits that have to agree, "" if they are not certain
Sig(v, p) == IF ~ Usable(v, p, Dps) THEN "" ELSE LET c == Cuts(v, TRUE, Dps, p + 2) IN IF Cardinality(c) = 1 THEN CHOOSE x \in c : TRUE ELSE ""
PfIndex(text) == IF text \in DOMAIN CFG!FuncIndex THEN CFG!FuncIndex[text] ELSE -1
RowOk(w) == PfIndex(w.f) >= 0 /\ w.x.kind \in {"ulcd", "rat"} /\ WellFormed(w.x) /\ w.a # <<>> /\ w.b # <<>>
Ident(a, b, pf, x) == [a |-> a, b |-> b, pf |-> pf, f |-> Func(x), raw |-> x]
RowIdent(w) == Ident(w.a, w.b, PfIndex(w.f), w.x)
HasPosRoot(b) == \E i \in 1..Len(b) : \E x \in 1..60 : PE!At(b[i], ToString(x)) = "0"
\* the row's two sides, as signed numbers, agree to p digits
RowHolds(w, q, n, p) ==
    LET r == Val(<<w.a, w.b, PfIndex(w.f)>>, n)
        lv == LhsValue([kind |-> "rat", n |-> Func(w.x)[1], d |-> Func(w.x)[2], k |-> "0"], q, Dps)
    IN r.t = "maybe" \/ lv.t = "maybe" \/ (r.t = "iv" /\ lv.t = "iv" /\ RLe(RAbs(RSub(r.lo, lv.lo)), RMul(Ten(1 - p), <<"11", "10">>)))

---------------------------------------------------------------------------
(* C20 *)
FilesKept(e) == \A i \in 1..Len(e.before) : e.before[i] \in Range(e.after)
NewFiles(e) == {e.after[i][1] : i \in 1..Len(e.after)} \ {e.before[i][1] : i \in 1..Len(e.before)}
NewDirs(e) == {e.dirsafter[i] : i \in 1..Len(e.dirsafter)} \ {e.dirsbefore[i] : i \in 1..Len(e.dirsbefore)}
SavedOk(e) == \A k \in CFG!Settings \ {"hashtable_file"} : CFG!Meaning(e.saved, k) = CFG!Resolved(e.pairs, k)
RunClauses(e, tab) ==
    IF e.exc # "" THEN <<<<FALSE, "C20", "a well-formed run fails: " \o e.exc>>>>
    ELSE IF e.only THEN <<<<NewFiles(e) = {} /\ NewDirs(e) = {} /\ FilesKept(e), "C20", "a run that only stores its table exports nothing">>>>
    ELSE IF ~ \A i \in 1..Len(e.rows) : RowOk(e.rows[i]) THEN <<<<FALSE, "C20", "a row of the results cannot be read">>>>
    ELSE
    LET q == Target(e)
        P == MaxP(e, tab)
        W == e.rows
        L == {x \in LhsAt(e.lhs, q) : ~ Degenerate(x)}
        lsig == TLCEval([x \in L |-> Sig(LhsValue(x, q, Dps), P)])
        esig == TLCEval([en \in tab.must |-> Sig(Val(en, e.n3), P)])
        hits == {en \in tab.must : esig[en] # "" /\ \E x \in L : lsig[x] = esig[en]}
        judge == TLCEval([f \in {[a |-> en[1], b |-> en[2]] : en \in hits} \cup {[a |-> W[i].a, b |-> W[i].b] : i \in 1..Len(W)} |-> CV!Judge(f)])
        J(a, b) == judge[[a |-> a, b |-> b]]
        certain == {en \in hits :
                      /\ J(en[1], en[2]).class \in {"exp", "super_exp"} /\ J(en[1], en[2]).fast
                      /\ ~ HasPosRoot(en[2])
                      /\ Sig(Val(en, e.n2), P) = esig[en]
                      /\ Sig(Apply(en[3], FracValue(en[1], en[2], e.n1, Dps), Dps), P) = esig[en]
                      /\ Sig(Apply(en[3], FracValue(en[1], en[2], tab.iters, Dps), Dps), P) = esig[en]}
        lost == IF Returns(tab.accs) THEN {}
                ELSE {en \in certain : \E x \in L : lsig[x] = esig[en] /\
                         ~ \E i \in 1..Len(W) : SameIdentity(RowIdent(W[i]), Ident(en[1], en[2], en[3], x))}
        Right(i) == [c |-> J(W[i].a, W[i].b), t |-> W[i].ctype]
        expected == {"results.csv", "results.tex", "config.ini"}
    IN <<<<lost = {}, "C20", "every identity that holds is reported">>,
         <<\A i \in 1..Len(W) : <<W[i].a, W[i].b, PfIndex(W[i].f)>> \in tab.may, "C20", "every reported fraction and function is one the table holds">>,
         <<\A i \in 1..Len(W) : \E x \in L : x.kind = W[i].x.kind /\ Corr(x, W[i].x), "C20",
           "every reported left-hand side is an enumerated one up to a sign and an integer">>,
         <<\A i \in 1..Len(W) : RowHolds(W[i], q, e.n3, e.p3), "C20", "every reported identity holds to the last precision">>,
         <<\A i \in 1..Len(W) : /\ Right(i).t \in {"exp", "super_exp"} /\ ~ Right(i).c.ends /\ ~ Right(i).c.slow /\ Right(i).c.class # "poly"
                                /\ (Right(i).c.class = "exp" => Right(i).t = "exp") /\ (Right(i).c.class = "super_exp" => Right(i).t = "super_exp"),
           "C20", "every reported fraction converges exponentially">>,
         <<\A i \in 1..Len(W) : ~ HasPosRoot(W[i].b), "C20", "no reported fraction ends">>,
         <<\A i, j \in 1..Len(W) : i < j => ~ Repeats(RowIdent(W[i]), RowIdent(W[j])), "C20", "nothing is reported twice">>,
         <<e.head = <<"target_name", TargetName(e)>>, "C20", "the results name the constant of the configuration">>,
         <<Len(e.eqs) = Len(W) /\ (e.const \notin {"feig", "percolation"} => \A i \in 1..Len(W) :
               EX!States(e.eqs[i], EX!Printed(e.const), W[i].x, [a |-> W[i].a, b |-> W[i].b], PfIndex(W[i].f), 4)), "C20",
           "the document states the rows' identities one for one">>,
         <<SavedOk(e), "C20", "the saved configuration reproduces the run's settings">>,
         <<FilesKept(e), "C20", "earlier results are untouched">>,
         <<Cardinality(NewDirs(e) \ {"results"}) = 1 /\ \A d \in NewDirs(e) \ {"results"} :
               NewFiles(e) = {d \o "/" \o f : f \in expected}, "C20", "the results are in a directory of their own">> >>

---------------------------------------------------------------------------
(* C22: rows exported after an interruption; st holds the rows of the last completed  *)
(* stage before the cancellable part and of the uninterrupted run                    *)
Same1(v, w) == v.a = w.a /\ v.b = w.b /\ v.f = w.f /\ v.x.kind = w.x.kind /\ v.ctype = w.ctype /\ FEq(Func(v.x), Func(w.x))
IsSub(sub, all) == LET k == FoldLeft(LAMBDA acc, w : IF acc <= Len(sub) /\ Same1(w, sub[acc]) THEN acc + 1 ELSE acc, 1, all) IN k = Len(sub) + 1
CutVerdict(e, w, q) == VerdictAt([mode |-> "info", N |-> e.p3, iters |-> e.n3],
                                 [a |-> w.a, b |-> w.b, f |-> PfIndex(w.f), conv |-> [type |-> w.ctype, base |-> w.base],
                                  x |-> [kind |-> "rat", n |-> Func(w.x)[1], d |-> Func(w.x)[2], k |-> "0"]], S0, q)
\* the third refinement has been applied: what it confirms is there (or its identity is), what it refutes is not
Applied(rows, base, verdict) ==
    /\ \A i \in 1..Len(base) : verdict[i] = "keep" => \E j \in 1..Len(rows) : Same1(base[i], rows[j]) \/ SameIdentity(RowIdent(rows[j]), RowIdent(base[i]))
    /\ \A i \in 1..Len(base) : verdict[i] = "drop" => ~ \E j \in 1..Len(rows) : Same1(base[i], rows[j])
CutClauses(e, s) ==
    IF e.exc # "" THEN <<<<FALSE, "C22", "an interrupted run does not export: " \o e.exc>>>>
    ELSE IF ~ e.complete THEN <<<<FALSE, "C22", "an interrupted run exports everything a run exports">>>>
    ELSE IF ~ \A i \in 1..Len(e.rows) : RowOk(e.rows[i]) THEN <<<<FALSE, "C22", "an exported row cannot be read">>>>
    ELSE
    LET whole == Len(e.rows) = Len(s.base) /\ IsSub(e.rows, s.base)
        applied == Applied(e.rows, s.base, s.verdict)
    IN <<<<IsSub(e.rows, s.base), "C22", "only results of the last completed stages are exported, none half-refined">>,
         <<whole \/ applied, "C22", "no confirmed result is lost">>,
         <<e.done >= 1 => applied, "C22", "what a completed stage refuted is not exported">>,
         <<Len(e.eqs) = Len(e.rows), "C22", "the document states the exported results">> >>
BaseClauses(e) ==
    IF e.exc # "" \/ ~ \A i \in 1..Len(e.rows) : RowOk(e.rows[i]) THEN <<<<FALSE, "C22", "an interrupted run does not export: " \o e.exc>>>>
    ELSE LET q == Target(e) IN
         <<<<\A i \in 1..Len(e.rows) : RowHolds(e.rows[i], q, e.n2, e.p2), "C22", "what is exported was confirmed by the last completed stage">> >>

---------------------------------------------------------------------------
(* C23, C24: the bag of <<key, entry>> of a recorded table                            *)
TableBag(tab) == LET all == PE!FlatMap(LAMBDA row : [i \in 1..Len(row.es) |-> <<row.k, Entry(row.es[i])>>], tab)
                 IN [x \in Range(all) |-> Cardinality({i \in 1..Len(all) : all[i] = x})]
EntriesOf(bag) == {x[2] : x \in DOMAIN bag}
Kept(e) == \A i \in 1..Len(e.before) : e.before[i] \in Range(e.after)
Undefined(x, n) == Apply(x[3], FracValue(x[1], x[2], n, Dps), Dps).t # "iv"
Complete(s) == \A k \in 0..(s.n - 1) : \E i \in 1..Len(s.stored) : s.stored[i].k = k
WholeClauses(e) ==
    LET want == Entries1(e, TRUE)
        whole == EntriesOf(TableBag(e.whole))
    IN <<<<e.exc = "", "C23", "a run cannot be distributed, or run at all: " \o e.exc>>,
         <<e.got = e.n, "C23", "a run is distributed to as many parts as asked for">>,
         <<e.exc = "" => want.must \subseteq EntriesOf(TableBag(e.whole)) \cup {x \in want.must : Undefined(x, e.hiters)} /\ whole \subseteq want.may, "C23",
           "the undistributed run's table holds the space">> >>
PartClauses(e) ==
    <<<<e.exc = "" /\ e.new = 1, "C23", "every part's run stores a table of its own: " \o e.exc>>,
      <<Kept(e) /\ Len(e.after) = Len(e.before) + 1, "C23", "a part's run touches nothing but its table">> >>
FailClauses(e) == <<<<Kept(e) /\ e.new = 0, "C23", "a part that fails leaves no table and touches none">> >>
JoinClauses(e, s) ==
    LET sum == TLCEval(DI!SumAll([i \in 1..Len(s.stored) |-> s.stored[i].b]))
        got == TLCEval(TableBag(e.table))
    IN IF s.joined.t THEN <<<<Kept(e) /\ Len(e.after) = Len(e.before), "C23", "an existing joined table is not overwritten">> >>
       ELSE <<<<e.exc = "" /\ Kept(e) /\ Len(e.after) = Len(e.before) + 1, "C23", "joining writes one table and touches no part: " \o e.exc>>,
              <<got = sum, "C23", "the joined table is the sum of the parts' tables">>,
              <<Complete(s) => DOMAIN got = DOMAIN s.whole, "C23", "the joined table of all parts holds what the undistributed run's holds">>,
              <<e.named, "C23", "the joined table keeps its parameters">> >>
CleanClauses(e, s) ==
    LET was == TLCEval(TableBag(e.aged))
        is == TLCEval(TableBag(e.table))
    IN <<<<e.exc = "" /\ Kept(e) /\ Len(e.new) = 1, "C24", "cleaning writes one new table and leaves the old one: " \o e.exc>>,
         <<\A x \in DOMAIN is : DI!Count(was, x) = is[x], "C24", "what is kept is kept as it was">>,
         <<\A x \in DOMAIN was : DI!Count(is, x) = 0 => ~ PE!FamilyRootFree(x[2][2]), "C24", "only entries whose fraction may end are dropped">>,
         <<\A x \in DOMAIN is : ~ PE!FamilyRejected(x[2][2]), "C24", "no entry whose fraction ends is kept">>,
         <<e.named /\ e.acc = e.aged_acc, "C24", "the cleaned table keeps its parameters and accuracy">> >>
As(cs, p) == [i \in 1..Len(cs) |-> <<cs[i][1], p, cs[i][3]>>]
Found(bag, s) == [must |-> EntriesOf(bag), may |-> EntriesOf(bag), iters |-> s.iters, accs |-> <<0>>]

---------------------------------------------------------------------------
Nothing == [tabs |-> << >>, base |-> <<>>, verdict |-> <<>>, dead |-> FALSE,
            n |-> 0, iters |-> 0, whole |-> << >>, stored |-> <<>>, joined |-> [t |-> FALSE, b |-> << >>]]
Step(e, s) ==
    CASE e.op = "start" -> [st |-> Nothing, cs |-> <<>>]
      [] s.dead -> [st |-> s, cs |-> <<>>]
      [] e.op = "run" -> LET tab == TLCEval(Tab(e, IF e.table \in DOMAIN s.tabs THEN s.tabs[e.table] ELSE << >>))
                         IN [st |-> [s EXCEPT !.tabs = RU!Put(@, e.table, tab)], cs |-> RunClauses(e, tab)]
      [] e.op = "distribute" -> [st |-> [s EXCEPT !.n = e.n, !.iters = e.hiters, !.whole = TLCEval(TableBag(e.whole))], cs |-> WholeClauses(e)]
      [] e.op = "part" -> [st |-> [s EXCEPT !.stored = Append(@, [k |-> e.k, b |-> TLCEval(TableBag(e.table))])], cs |-> PartClauses(e)]
      [] e.op = "fail" -> [st |-> s, cs |-> FailClauses(e)]
      [] e.op = "join" -> [st |-> IF s.joined.t THEN s ELSE [s EXCEPT !.joined = [t |-> TRUE, b |-> TLCEval(TableBag(e.table))]], cs |-> JoinClauses(e, s)]
      [] e.op = "clean" -> [st |-> [s EXCEPT !.joined = [t |-> TRUE, b |-> TLCEval(TableBag(e.table))]], cs |-> CleanClauses(e, s)]
      [] e.op = "use" -> [st |-> s, cs |-> As(RunClauses(e, Found(s.joined.b, s)), e.prop)]
      [] e.op = "base" -> LET cs == BaseClauses(e) IN
                          [st |-> IF Failed(cs) # <<>> THEN s
                                  ELSE [s EXCEPT !.base = e.rows, !.verdict = TLCEval([i \in 1..Len(e.rows) |-> CutVerdict(e, e.rows[i], Target(e))])],
                           cs |-> cs]
      [] e.op = "cut" -> [st |-> s, cs |-> CutClauses(e, s)]
Init == l = 1 /\ st = Nothing
Next == /\ l <= Len(Trace)
        /\ LET r == Step(E, st)
               f == Failed(r.cs)
           IN Report(l, f) /\ st' = IF f # <<>> /\ E.op # "cut" THEN [r.st EXCEPT !.dead = TRUE] ELSE r.st
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, st>>
==============================================================================
