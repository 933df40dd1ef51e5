------------------------------- MODULE LhsTrace -------------------------------
(* The real left-hand-side objects, their enumerators and the uniqueness filter  *)
(* agree with Lhs.                                                               *)
EXTENDS TraceBase, Lhs
VARIABLES l, st
E == Trace[l]
Unit(dps) == Ten(1 - dps)

\* the value an object may report: its formula at the target, to working precision
Formula(x) == IF x.kind = "ulcd" THEN <<Func(x), "0">> ELSE <<<<PTrim(x.n), PTrim(x.d)>>, x.k>>
ValueOk(x, val, t, dps) ==
    LET fk == Formula(x)
        f == fk[1]
        n == PEval(f[1], t)
        d == PEval(f[2], t)
    IN IF RIsZero(d) THEN ~ IsFin(val)
       ELSE IF RIsZero(n) /\ x.kind = "rat" THEN ~ IsFin(val) \/ RatOf(val) = RBig(fk[2])
       ELSE LET q == RDiv(n, d)
                v == RAdd(q, RBig(fk[2]))
                tol == RMul(Unit(dps), RMul(RInt(8),
                          RAdd(RAdd(RDiv(PEvalAbs(f[1], t), RAbs(d)), RDiv(RMul(RAbs(n), PEvalAbs(f[2], t)), RMul(d, d))),
                               RAdd(RAbs(q), RBig(BAbs(fk[2]))))))
            IN IF IsFin(val) THEN RLe(RAbs(RSub(RatOf(val), v)), tol)
               ELSE RLe(RAbs(d), RMul(tol, RAbs(d))) \/ RLe(RAbs(n), RMul(Unit(dps), RMul(RInt(8), PEvalAbs(f[1], t))))

---------------------------------------------------------------------------
(* C06: objects.  st: one record [f, x] per live object: the function it must denote. *)
Objs(e) == e.objs                                  \* what get_params and get_val say of every live object
ObjClauses(e, fs) ==
    IF e.exc # "" THEN <<<<FALSE, "C06", e.op \o " raises " \o e.exc>>>>
    ELSE IF Len(e.objs) # Len(fs) THEN <<<<FALSE, "C06", "the objects">>>>
    ELSE <<
     <<\A i \in 1..Len(fs) : e.objs[i].ok /\ WellFormed(e.objs[i].x), "C06", "the parameters are integer parameters of the kind">>,
     <<\A i \in 1..Len(fs) : e.objs[i].ok /\ WellFormed(e.objs[i].x) => FEq(Func(e.objs[i].x), fs[i]), "C06",
       e.op \o ": the parameters denote the expected function">>,
     <<\A i \in 1..Len(fs) : e.objs[i].ok /\ WellFormed(e.objs[i].x) =>
           \/ ValueOk(e.objs[i].x, e.objs[i].val, RatOf(e.t), e.dps)
           \/ (e.objs[i].x.kind = "rat" /\ FConst(fs[i]) /\ ~ IsFin(e.objs[i].val)), "C06",
       e.op \o ": the value is the function at the target">>,
     <<\A i \in 1..Len(fs) : e.objs[i].t = e.t, "C06", "the target constant is kept">> >>
Obj(e) ==
    LET i == e.i
        fs == IF e.op = "new" THEN <<Func(e.x)>>
              ELSE IF e.op = "copy" THEN Append(st, st[i])
              ELSE IF e.op = "reinit" THEN [st EXCEPT ![i] = Func(e.x)]
              ELSE IF e.op = "flip" THEN [st EXCEPT ![i] = FNeg(@)]
              ELSE IF e.op = "add" THEN [st EXCEPT ![i] = FAddInt(@, e.n)]
              ELSE st
        base == ObjClauses(e, fs)
        well == e.exc = "" /\ Len(e.objs) = Len(fs) /\ e.objs[i].ok /\ WellFormed(e.objs[i].x)
        more == IF ~ well THEN <<>>
                ELSE IF e.op = "canon" THEN
                   <<<<Reduced(e.objs[i].x), "C06", "the canonical form is reduced">>,
                     <<e.again, "C06", "canonicalising again changes nothing">> >>
                ELSE IF e.op = "poly" THEN
                   <<<<PTrim(e.sym[2]) # <<>> /\ FEq(Func([kind |-> "rat", n |-> e.sym[1], d |-> e.sym[2], k |-> e.objs[i].x.k]), fs[i]), "C06",
                       "the symbolic polynomials are those of the function">> >>
                ELSE IF e.op = "degenerate" THEN
                   <<<<e.res = (IF Degenerate(e.objs[i].x) THEN "True" ELSE "False"),
                       "C06", "degenerate exactly when the left-hand side does not depend on the constant">> >>
                ELSE <<>>
    IN [st |-> fs, cs |-> base \o more]

---------------------------------------------------------------------------
(* C05 *)
EnumClauses(e) ==
    LET want == IF e.kind = "ulcd" THEN {<<ToString(p[1]), ToString(p[2]), ToString(p[3]), ToString(p[4])>> : p \in Ulcds(e.ranges)}
                ELSE {<<Text(p[1]), Text(p[2]), "0">> : p \in Rationals(e.num, e.den, e.force, RatOf(e.t))}
        got == [i \in 1..Len(e.out) |-> e.out[i].p]
        obj(o) == IF e.kind = "ulcd" THEN [kind |-> "ulcd", p |-> o.p] ELSE [kind |-> "rat", n |-> o.p[1], d |-> o.p[2], k |-> o.p[3]]
    IN IF e.exc # "" THEN <<<<FALSE, "C05", "enumerating raises " \o e.exc>>>>
       ELSE IF \E i \in 1..Len(e.out) : ~ e.out[i].ok THEN <<<<FALSE, "C05", "every yielded object has integer parameters">>>>
       ELSE <<
        <<Range(got) \subseteq want, "C05", "only described left-hand sides are yielded">>,
        <<want \subseteq Range(got), "C05", "every described left-hand side is yielded">>,
        <<NoDup(got), "C05", "none is yielded twice">>,
        <<e.len >= Len(got), "C05", "the announced length is at least the number yielded">>,
        <<\A i \in 1..Len(e.out) : e.out[i].p \in want => ValueOk(obj(e.out[i]), e.out[i].val, RatOf(e.t), e.dps),
          "C05", "every yielded object evaluates to its own formula">> >>

---------------------------------------------------------------------------
(* C12.  items: the results in order; kept: the positions of the kept ones, twice. *)
Res(x) == [a |-> x.a, b |-> x.b, pf |-> x.pf, raw |-> x.raw, kind |-> x.x.kind, f |-> Func(x.x)]
UniqClauses(e) ==
    LET n == Len(e.items)
        r == [i \in 1..n |-> Res(e.items[i])]
        kept == Range(e.kept)
    IN IF e.exc # "" THEN <<<<FALSE, "C12", "filtering raises " \o e.exc>>>>
       ELSE IF ~ (kept \subseteq 1..n) THEN <<<<FALSE, "C12", "the filter only keeps results it was given">>>>
       ELSE <<
        <<\A i \in 1..(Len(e.kept) - 1) : e.kept[i] < e.kept[i + 1], "C12", "the order is kept and nothing is repeated">>,
        <<n > 0 => 1 \in kept, "C12", "the first result is kept">>,
        <<\A i \in (1..n) \ kept : \E j \in kept : j < i /\ Merged(r[j], r[i]), "C12",
          "every dropped result states the identity of an earlier kept one">>,
        <<\A i, j \in kept : i < j => ~ Repeats(r[i], r[j]), "C12", "exact repetitions are merged">>,
        <<e.kept2 = e.kept, "C12", "filtering again changes nothing">>,
        <<e.same, "C12", "the kept results are the given ones">>,
        <<Len(e.after) = Len(e.kept) /\ \A i \in 1..Len(e.after) : WellFormed(e.after[i]) /\ FEq(Func(e.after[i]), r[e.kept[i]].f),
          "C12", "the kept results' functions are unchanged">> >>

Dead == <<>>
Step(e) == CASE e.op = "enum" -> [st |-> Dead, cs |-> EnumClauses(e)]
             [] e.op = "uniq" -> [st |-> Dead, cs |-> UniqClauses(e)]
             [] e.op = "new" -> Obj(e)
             [] OTHER -> IF st = Dead THEN [st |-> st, cs |-> <<>>] ELSE Obj(e)
Init == l = 1 /\ st = Dead
Next == /\ l <= Len(Trace)
        /\ LET r == Step(E)
               f == Failed(r.cs)
           IN Report(l, f) /\ st' = IF f # <<>> THEN Dead ELSE r.st
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, st>>
==============================================================================
