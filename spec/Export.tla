--------------------------------- MODULE Export ---------------------------------
(* What exports state (enum_params.py export_to_csv, get_results_as_eqns; latex.py;   *)
(* the get_latex_exp of left-hand sides).  An equation is a sequence of LaTeX tokens  *)
(* and is read back as mathematics: both sides become rational functions of their     *)
(* one unknown (the constant on the left, the rest of the fraction, "\dots", on the   *)
(* right), with at most one transcendental function around the right-hand side.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Lhs
CF == INSTANCE ContFrac

\* a read value: fn applied to the rational function r, reciprocal if inv; fn = "" for r itself
V(r) == [ok |-> TRUE, fn |-> "", inv |-> FALSE, r |-> r]
Fail == [ok |-> FALSE, fn |-> "", inv |-> FALSE, r |-> << <<>>, <<"1">> >>]
One == << <<"1">>, <<"1">> >>
FAdd(f, g) == <<PAdd(PMul(f[1], g[2]), PMul(g[1], f[2])), PMul(f[2], g[2])>>
FMul(f, g) == <<PMul(f[1], g[1]), PMul(f[2], g[2])>>
RECURSIVE FPow(_, _)
FPow(f, k) == IF k = 0 THEN One ELSE FMul(f, FPow(f, k - 1))
Plain(x) == x.ok /\ x.fn = ""
VAdd(x, y) == IF Plain(x) /\ Plain(y) THEN V(FAdd(x.r, y.r)) ELSE Fail
VNeg(x) == IF Plain(x) THEN V(FNeg(x.r)) ELSE Fail
VMul(x, y) == IF Plain(x) /\ Plain(y) THEN V(FMul(x.r, y.r)) ELSE Fail
VInvert(x) == IF ~ x.ok THEN Fail ELSE IF x.fn # "" THEN [x EXCEPT !.inv = ~ @]
              ELSE IF x.r[1] = <<>> THEN Fail ELSE V(FInv(x.r))
VFrac(x, y) == IF Plain(x) /\ FEq(x.r, One) THEN VInvert(y) ELSE VMul(x, IF Plain(y) THEN VInvert(y) ELSE Fail)
VPower(x, k) == IF Plain(x) THEN V(FPow(x.r, k)) ELSE Fail
VApply(fn, x) == IF ~ Plain(x) THEN Fail ELSE [x EXCEPT !.fn = fn]
FnOf == [t \in {"\\sqrt", "\\sin", "\\cos", "\\tan", "\\cot", "\\exp", "\\ln"} |->
           CASE t = "\\sqrt" -> <<"sqrt", FALSE>> [] t = "\\sin" -> <<"sin", FALSE>> [] t = "\\cos" -> <<"cos", FALSE>>
             [] t = "\\tan" -> <<"tan", FALSE>> [] t = "\\cot" -> <<"tan", TRUE>> [] t = "\\exp" -> <<"exp", FALSE>>
             [] t = "\\ln" -> <<"ln", FALSE>>]

(* the reader: <<value, next position>>; var: the unknown's token *)
IsInt(t) == Len(t) > 0 /\ \A i \in 1..Len(t) : SubSeq(t, i, i) \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Tok(ts, i) == IF i <= Len(ts) THEN ts[i] ELSE ""
RECURSIVE Sum(_, _, _), Rest(_, _, _, _), Product(_, _, _), Factors(_, _, _, _), Powered(_, _, _), Atom(_, _, _)
Opens(t, var) == t \in {"(", "{", "\\frac"} \cup DOMAIN FnOf \/ t = var \/ IsInt(t)
Sum(ts, i, var) == LET x == Product(ts, i, var) IN Rest(ts, x[2], var, x[1])
Rest(ts, i, var, acc) ==
    IF ~ acc.ok THEN <<Fail, i>>
    ELSE IF Tok(ts, i) = "+" THEN LET y == Product(ts, i + 1, var) IN Rest(ts, y[2], var, VAdd(acc, y[1]))
    ELSE IF Tok(ts, i) = "-" THEN LET y == Product(ts, i + 1, var) IN Rest(ts, y[2], var, VAdd(acc, VNeg(y[1])))
    ELSE <<acc, i>>
Product(ts, i, var) ==
    IF Tok(ts, i) = "-" THEN LET x == Product(ts, i + 1, var) IN <<VNeg(x[1]), x[2]>>
    ELSE LET x == Powered(ts, i, var) IN Factors(ts, x[2], var, x[1])
Factors(ts, i, var, acc) ==
    IF ~ acc.ok THEN <<Fail, i>>
    ELSE LET j == IF Tok(ts, i) = "\\cdot" THEN i + 1 ELSE i IN
         IF Opens(Tok(ts, j), var) THEN LET y == Powered(ts, j, var) IN Factors(ts, y[2], var, VMul(acc, y[1]))
         ELSE IF j > i THEN <<Fail, i>> ELSE <<acc, i>>
Powered(ts, i, var) ==
    LET x == Atom(ts, i, var) IN
    IF ~ x[1].ok THEN x
    ELSE IF Tok(ts, x[2]) # "^" THEN x
    ELSE IF IsInt(Tok(ts, x[2] + 1)) THEN <<VPower(x[1], BToInt(Tok(ts, x[2] + 1))), x[2] + 2>>
    ELSE IF Tok(ts, x[2] + 1) = "{" /\ IsInt(Tok(ts, x[2] + 2)) /\ Tok(ts, x[2] + 3) = "}"
         THEN <<VPower(x[1], BToInt(Tok(ts, x[2] + 2))), x[2] + 4>>
    ELSE <<Fail, x[2]>>
Closed(ts, i, var, c) == LET x == Sum(ts, i, var) IN IF x[1].ok /\ Tok(ts, x[2]) = c THEN <<x[1], x[2] + 1>> ELSE <<Fail, x[2]>>
Atom(ts, i, var) ==
    LET t == Tok(ts, i) IN
    IF t = var THEN <<V(<< <<"0", "1">>, <<"1">> >>), i + 1>>
    ELSE IF IsInt(t) THEN <<V(<<PTrim(<<t>>), <<"1">> >>), i + 1>>
    ELSE IF t = "(" THEN Closed(ts, i + 1, var, ")")
    ELSE IF t = "{" THEN Closed(ts, i + 1, var, "}")
    ELSE IF t = "\\frac" THEN
        LET x == IF Tok(ts, i + 1) = "{" THEN Closed(ts, i + 2, var, "}") ELSE <<Fail, i>> IN
        IF ~ x[1].ok THEN <<Fail, i>>
        ELSE LET y == IF Tok(ts, x[2]) = "{" THEN Closed(ts, x[2] + 1, var, "}") ELSE <<Fail, i>>
             IN IF ~ y[1].ok THEN <<Fail, i>> ELSE <<VFrac(x[1], y[1]), y[2]>>
    ELSE IF t \in DOMAIN FnOf THEN
        LET x == Atom(ts, i + 1, var)
            y == VApply(FnOf[t][1], x[1])
        IN <<IF FnOf[t][2] THEN VInvert(y) ELSE y, x[2]>>
    ELSE <<Fail, i>>
Read(ts, var) == LET x == Sum(ts, 1, var) IN IF x[2] = Len(ts) + 1 THEN x[1] ELSE Fail
Equal(x, y) == x.ok /\ y.ok /\ x.fn = y.fn /\ x.inv = y.inv /\ FEq(x.r, y.r)

---------------------------------------------------------------------------
(* What an equation has to state.  The right-hand side: the fraction's first m + 1   *)
(* terms with an unknown rest, as the rational function of the rest.                 *)
Terms(f, m) == FoldLeft(LAMBDA acc, j : LET i == m - j IN
                            FAdd(<< <<CF!Term(f.a, i)>>, <<"1">> >>, FMul(<< <<CF!Term(f.b, i + 1)>>, <<"1">> >>, FInv(acc))),
                        << <<CF!Term(f.a, m), "1">>, <<"1">> >>, [j \in 1..m |-> j])
Clean(r) == <<PTrim(r[1]), PTrim(r[2])>>
Post(pf, r) ==
    LET k == pf \div 2
        x == IF k <= 4 THEN V(FPow(r, k + 1))
             ELSE [V(r) EXCEPT !.fn = <<"sqrt", "sin", "cos", "tan", "tan", "exp", "ln">>[k - 4], !.inv = (k = 9)]
    IN IF pf % 2 = 1 THEN VInvert(x) ELSE x
States(ts, name, x, f, pf, m) ==
    \E i \in 1..Len(ts) :
        /\ ts[i] = "=" /\ \A j \in 1..Len(ts) : j # i => ts[j] # "="
        /\ Equal(Read(SubSeq(ts, 1, i - 1), name), V(Func(x)))
        /\ Equal(Read(SubSeq(ts, i + 1, Len(ts)), "\\dots"), Post(pf, Clean(Terms(f, m))))
\* the names the constants are printed under
Printed(name) == IF name = "pi" THEN "\\pi" ELSE IF name = "phi" THEN "\\varphi" ELSE name
\* a fraction that ends within the n iterations an export evaluates
Ends(f, n) == \E i \in 1..n : CF!Term(f.b, i) = "0"
\* is `out' the list `rs' without the fractions that end, one for one?
OneForOne(rs, out, ends(_), Match(_, _)) ==
    LET kept == SelectSeq([i \in 1..Len(rs) |-> i], LAMBDA i : ~ ends(rs[i]))
    IN Len(kept) = Len(out) /\ \A j \in 1..Len(out) : Match(rs[kept[j]], out[j])
==============================================================================
