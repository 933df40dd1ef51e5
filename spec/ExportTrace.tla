------------------------------- MODULE ExportTrace -------------------------------
(* C17: recorded exports of the real code against Export.                           *)
EXTENDS TraceBase, Export
VA == INSTANCE Values
TX == INSTANCE Text
CFG == INSTANCE Config
VARIABLES l, memo
E == Trace[l]
Frac(x) == [a |-> x.a, b |-> x.b]
ExportOrder == 400
EndsAt(m, x) == m[Frac(x)].ends
\* a number in decimal notation
IsDec(s) == LET t == IF SubSeq(s, 1, 1) = "-" THEN SubSeq(s, 2, Len(s)) ELSE s
                p == TX!FindChar(t, 1, ".")
            IN IF p = 0 THEN TX!AllDigits(t) ELSE TX!AllDigits(SubSeq(t, 1, p - 1)) /\ (p = Len(t) \/ TX!AllDigits(SubSeq(t, p + 1, Len(t))))
DecOf(s) == LET n == SubSeq(s, 1, 1) = "-"
                t == IF n THEN SubSeq(s, 2, Len(s)) ELSE s
                p == TX!FindChar(t, 1, ".")
                q == IF p = 0 THEN RBig(BAdd(t, "0"))
                     ELSE RFrac(BAdd(BMul(BAdd(SubSeq(t, 1, p - 1), "0"), BPow("10", Len(t) - p)),
                                     IF p = Len(t) THEN "0" ELSE BAdd(SubSeq(t, p + 1, Len(t)), "0")), BPow("10", Len(t) - p))
            IN IF n THEN RNeg(q) ELSE q
Mag(v) == RMax(RAbs(v.lo), RAbs(v.hi))
ValueStated(text, v, dps) == v.t # "iv" \/ (IsDec(text) /\ LET q == DecOf(text) w == RMul(Mag(v), Ten(4 - dps))
                                                          IN RLe(RSub(v.lo, w), q) /\ RLe(q, RAdd(v.hi, w)))
NumStated(text, x, dps) == IF IsFin(x) THEN IsDec(text) /\ RClose(DecOf(text), RatOf(x), dps - 3) ELSE ~ IsDec(text)
\* 10-adic numbers of a printed rate: [s |-> digits, e |-> power of ten]
RateStated(ns, ps, dps) == Len(ns) = Len(ps) /\ \A i \in 1..Len(ps) : IsFin(ps[i]) => RClose(RMul(RBig(ns[i].s), Ten(ns[i].e)), RatOf(ps[i]), dps - 3)

Same(x, y, dps) == /\ x.a = y.a /\ x.b = y.b /\ x.f = y.f /\ x.conv = y.conv
              /\ x.x.kind = y.x.kind /\ WellFormed(y.x) /\ FEq(Func(x.x), Func(y.x))
              /\ IsFin(x.val) => IsFin(y.val) /\ RClose1(RatOf(y.val), RatOf(x.val), dps - 6)   \* recomputed
Unchanged(e) == Len(e.after) = Len(e.results) /\ \A i \in 1..Len(e.after) : Same(e.results[i], e.after[i], e.dps)
EqClauses(e, m) ==
    LET match(r, ts) == States(ts, Printed(e.name), r.x, Frac(r), r.f, e.depth - 1)
    IN <<<<OneForOne(e.results, e.eqs, LAMBDA r : EndsAt(m, r), match), "C17", "every equation states its result, one for one in order">>,
         <<Unchanged(e), "C17", "exporting changes no result">>>>
RowOk(r, w, m, dps) ==
    /\ w.a = r.a /\ w.b = r.b
    /\ w.f = CFG!Funcs[r.f + 1]
    /\ w.kind = (IF r.x.kind = "ulcd" THEN "ulcd" ELSE "rationalfunc")
    /\ w.x.kind = r.x.kind /\ WellFormed(w.x) /\ FEq(Func(w.x), Func(r.x))
    /\ IF r.conv.type = "none" THEN w.ctype = "" /\ w.rate = <<>> ELSE w.ctype = r.conv.type /\ RateStated(w.rate, r.conv.ps, IF dps < 15 THEN dps ELSE 15)
    /\ ValueStated(w.value, VA!Apply(r.f, m[Frac(r)].v, dps), dps)
    /\ NumStated(w.lhs, r.val, dps)
CsvClauses(e, m) ==
    <<<<e.head = <<"target_name", e.name>> /\ e.columns = 9, "C17", "the export names the constant and its columns">>,
      <<OneForOne(e.results, e.rows, LAMBDA r : EndsAt(m, r), LAMBDA r, w : RowOk(r, w, m, e.dps)), "C17",
        "every row states its result, one for one in order">>,
      <<Unchanged(e), "C17", "exporting changes no result">>>>
Step(e, m) == IF e.exc # "" THEN <<<<FALSE, "C17", "exporting raises " \o e.exc>>>>
              ELSE IF e.op = "csv" THEN CsvClauses(e, m) ELSE EqClauses(e, m)
\* the fractions of a session are evaluated once
About(f, dps) == IF Ends(f, ExportOrder) THEN [ends |-> TRUE, v |-> VA!Nan] ELSE [ends |-> FALSE, v |-> VA!ConvValue(f.a, f.b, ExportOrder, dps)]
Init == l = 1 /\ memo = [case |-> "", m |-> << >>]
Next == /\ l <= Len(Trace)
        /\ LET old == IF memo.case = E.case THEN memo.m ELSE << >>
               fs == {Frac(E.results[i]) : i \in 1..Len(E.results)}
               m == TLCEval(TLCEval([f \in fs \ DOMAIN old |-> About(f, E.dps)]) @@ old)
           IN Report(l, Failed(Step(E, m))) /\ memo' = [case |-> E.case, m |-> m]
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, memo>>
==============================================================================
