--------------------------- MODULE PostFuncsTrace ---------------------------
(* Recorded values of the post-processing functions are what PostFuncs allows.     *)
EXTENDS TraceBase, PostFuncs
VARIABLES l
E == Trace[l]
Pairs(n) == {<<2 * k, 2 * k + 1>> : k \in 0..((n \div 2) - 1)} \cup {<<2 * k + 1, 2 * k>> : k \in 0..((n \div 2) - 1)}
Shape(e) == <<
    <<e.count >= FuncCount /\ e.count % 2 = 0 /\ e.names = e.count, "C19", "every function has a name and a reciprocal">>,
    <<e.distinct, "C19", "no two functions share a name">>,
    <<{<<p[1], p[2]>> : p \in Range(e.pairs)} = Pairs(e.count), "C19", "the declared inverse pairs">>,
    <<e.latex, "C19", "every function, and nothing else, has a LaTeX form">> >>
One(e, f, v) == LET r == e.r[f + 1] IN
    <<<<r.exc = "", "C19", "the " \o FuncName(f) \o " raises " \o r.exc>>,
      <<r.exc # "" \/ MayBeAt(r.val, v, f, e.dps), "C19", "the " \o FuncName(f)
          \o (IF v.t = "bad" THEN " outside its domain" ELSE IF v.t = "zero" THEN " where it vanishes" ELSE "")>>,
      <<r.exc # "" \/ r.byname, "C19", "the function is the one its name is for">> >>
Call(e) ==
    IF IsFin(e.x) THEN
        LET q == RatOf(e.x)
            D == WorkDigits(e.dps)
            v == TLCEval([f \in 0..(FuncCount - 1) |-> IF f % 2 = 0 THEN Named(f \div 2, q, D) ELSE UnsureV])
            w(f) == IF f % 2 = 0 THEN v[f] ELSE IF f = 19 /\ RIsZero(q) THEN ZeroV ELSE Recip(v[f - 1])
        IN FlattenSeq([i \in 1..FuncCount |-> One(e, i - 1, w(i - 1))])
        \o <<<<e.after = e.dps, "C19", "a call leaves the working precision">>>>
    ELSE FlattenSeq([i \in 1..FuncCount |->
            <<<<e.r[i].exc = "", "C19", "the " \o FuncName(i - 1) \o " raises " \o e.r[i].exc>>,
              <<e.r[i].exc # "" \/ Limit(e.r[i].val), "C19", "the " \o FuncName(i - 1) \o " of no number is an ordinary number">> >>])
Step(e) == IF e.op = "table" THEN Shape(e) ELSE Call(e)
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Failed(Step(E))) /\ l' = l + 1
Spec == Init /\ [][Next]_l
==============================================================================
