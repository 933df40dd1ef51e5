-------------------------------- MODULE Converge --------------------------------
(* How a continued fraction converges, and the filters that judge results by it     *)
(* (cont_fracs.py is_convergence_fast, estimate_approach_type_and_params;            *)
(* enum_params.py filter_only_exp_convergence, filter_clicks_by_approach_type).      *)
(* With Delta(n) = |p(n+2)/q(n+2) - p(n)/q(n)|, convergence is judged by the ratios   *)
(* R(n) = Delta(n)/Delta(n+2) over orders that are far out.                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Rat
CF == INSTANCE ContFrac

\* the denominators q(0..N)
Dens(f, N) ==
    FoldLeft(LAMBDA acc, n : LET k == Len(acc)
                             IN Append(acc, BAdd(BMul(CF!Term(f.a, n), acc[k]),
                                                 BMul(CF!Term(f.b, n), IF k = 1 THEN "0" ELSE acc[k - 1]))),
             <<"1">>, [n \in 1..N |-> n])
\* the denominators as the trace needs them: only the marked orders are kept, n -> q(n)
DensAt(f, N, marks) ==
    FoldLeft(LAMBDA acc, n : LET q == BDot(CF!Term(f.a, n), acc.q1, CF!Term(f.b, n), acc.q2)
                             IN [q1 |-> q, q2 |-> acc.q1, at |-> IF n \in marks THEN acc.at @@ (n :> q) ELSE acc.at],
             [q1 |-> "1", q2 |-> "0", at |-> IF 0 \in marks THEN (0 :> "1") ELSE << >>], [n \in 1..N |-> n]).at
\* by the determinant of consecutive convergents, Delta(n) = |a(n+2) b(1)...b(n+1) / (q(n) q(n+2))| (RatioIdentity)
RatioDefined(f, q, n) == /\ q[n] # "0" /\ q[n + 2] # "0" /\ q[n + 4] # "0"
                         /\ CF!Term(f.a, n + 2) # "0" /\ CF!Term(f.a, n + 4) # "0"
                         /\ CF!Term(f.b, n + 2) # "0" /\ CF!Term(f.b, n + 3) # "0"
RatioParts(f, q, n) == <<BAbs(BMul(CF!Term(f.a, n + 2), q[n + 4])),
                         BAbs(BMul(BMul(CF!Term(f.a, n + 4), BMul(CF!Term(f.b, n + 2), CF!Term(f.b, n + 3))), q[n]))>>
Ratio(f, q, n) == RNorm(RatioParts(f, q, n))
\* 40 digits of it, rounded down
RatioShort(f, q, n) == LET r == TLCEval(RatioParts(f, q, n))
                           k == 42 + Len(r[2]) - Len(r[1])
                       IN IF k >= 0 THEN RMul(RBig(BDiv(BMul(r[1], BPow("10", k)), r[2])), Ten(-k))
                          ELSE RBig(BDiv(r[1], r[2]))

---------------------------------------------------------------------------
(* The verdicts over a sequence of samples <<n, R(n)>> *)
MinR(s) == FoldLeft(LAMBDA acc, x : RMin(acc, x[2]), s[1][2], s)
MaxR(s) == FoldLeft(LAMBDA acc, x : RMax(acc, x[2]), s[1][2], s)
\* the differences shrink by a clear constant factor, or faster
Fast(s) == RLe(<<"6", "5">>, MinR(s))
\* the differences do not shrink faster than a power of the order (or grow)
Slow(s) == \A i \in 1..Len(s) : RLe(RMul(RSub(s[i][2], ROne), RInt(s[i][1])), RInt(25))
\* a clear constant factor
Expo(s) == Fast(s) /\ RLe(MaxR(s), RMul(MinR(s), <<"6", "5">>))
\* a factor that keeps growing: by more than a linear one does
Super(s) == /\ RLt(RInt(4), MinR(s))
            /\ RLe(RMul(RInt(7), RMax(s[1][2], s[2][2])), RMin(s[Len(s)][2], s[Len(s) - 1][2]))
            /\ \A i \in 1..(Len(s) - 2) : RLt(s[i][2], s[i + 2][2])
\* a clear power of the order: n (R(n) - 1) is about constant
Poly(s) == LET x == [i \in 1..Len(s) |-> RMul(RSub(s[i][2], ROne), RInt(s[i][1]))]
               lo == FoldLeft(LAMBDA acc, y : RMin(acc, y), x[1], x)
               hi == FoldLeft(LAMBDA acc, y : RMax(acc, y), x[1], x)
           IN RLe(<<"1", "10">>, lo) /\ RLe(hi, RInt(25)) /\ RLe(hi, RMul(lo, <<"13", "10">>))
\* the class the samples establish, "open" if they do not
Class(s) == IF Expo(s) THEN "exp" ELSE IF Super(s) THEN "super_exp" ELSE IF Poly(s) THEN "poly" ELSE "open"
\* the rate per iteration: its square is the ratio
RateOk(s, base) == LET b2 == RMul(base, base)
                   IN RLe(RMul(MinR(s), <<"999", "1000">>), b2) /\ RLe(b2, RMul(MaxR(s), <<"1001", "1000">>))

---------------------------------------------------------------------------
(* The samples that judge a fraction *)
Grid == {200 + 25 * j : j \in 0..14}
Orders == UNION {{n, n + 1} : n \in Grid}
OrderSeq == SetToSortSeq(Orders, <)
Marks == UNION {{n, n + 2, n + 4} : n \in Orders}
LastOrder == 555
EndsWithin(f, n) == \E i \in 1..n : CF!Term(f.b, i) = "0"
\* what the samples of a fraction establish
NoClass == [ends |-> FALSE, fast |-> FALSE, slow |-> FALSE, class |-> "open", lo |-> RZero, hi |-> RZero]
Judge(f) ==
    IF EndsWithin(f, LastOrder) THEN [NoClass EXCEPT !.ends = TRUE]
    ELSE LET q == DensAt(f, LastOrder, Marks) IN
         IF \E n \in Orders : ~ RatioDefined(f, q, n) THEN NoClass
         ELSE LET s == TLCEval([i \in 1..Len(OrderSeq) |-> <<OrderSeq[i], RatioShort(f, q, OrderSeq[i])>>])
              IN [ends |-> FALSE, fast |-> Fast(s), slow |-> Slow(s), class |-> Class(s), lo |-> MinR(s), hi |-> MaxR(s)]
Known == {"exp", "super_exp", "poly2sympoly", "fast"}
\* a classification [type, ps, exc] of a fraction
ClassOk(c, j) ==
    IF j.ends THEN c.exc # "" \/ c.type \notin Known
    ELSE CASE j.class = "exp" -> c.exc = "" /\ c.type = "exp" /\ Len(c.ps) >= 1 /\ IsFin(c.ps[1]) /\ RateOk(<<<<1, j.lo>>, <<1, j.hi>>>>, RatOf(c.ps[1]))
           [] j.class = "super_exp" -> c.exc = "" /\ c.type = "super_exp"
           [] j.class = "poly" -> c.exc = "" /\ c.type = "poly2sympoly"
           [] OTHER -> TRUE

---------------------------------------------------------------------------
(* The filters over results [id, class, note]: class is the result's own, "raises"  *)
(* if it has none; note is its annotation.                                          *)
FilterFast(rs, fast(_)) == SelectSeq(rs, LAMBDA r : fast(r))
Annotated(rs) == [i \in 1..Len(rs) |-> [rs[i] EXCEPT !.note = rs[i].class]]
FilterWhite(rs, wl) == Annotated(SelectSeq(rs, LAMBDA r : r.class # "raises" /\ r.class \in wl))
FilterBlack(rs, bl) == Annotated(SelectSeq(rs, LAMBDA r : r.class # "raises" /\ r.class \notin bl))
==============================================================================
