-------------------------------- MODULE ExportMC --------------------------------
(* C17 on the design: every small result, written down in every one of several ways,   *)
(* is read back as itself and as no other; exporting is an observer.                  *)
EXTENDS Export, Json
CONSTANTS Ints0, MaxLog
VARIABLES res, style, log
vars == <<res, style, log>>
Digits1(n) == ToString(n)
Pos == {x \in Ints0 : x > 0}
SmallInts == {-2, 0, 1}
MoreInts == {-12, -3, -2, -1, 0, 1, 3, 10}
Ulcd == {[kind |-> "ulcd", p |-> <<ToString(u), ToString(l), ToString(c), ToString(d)>>] :
           u \in Ints0, l \in Ints0 \ {0}, c \in {-1, 0, 2}, d \in {-3, -1, 1, 3}}
Rats == {[kind |-> "rat", n |-> <<ToString(a), ToString(b)>>, d |-> <<ToString(c), ToString(e)>>, k |-> ToString(k)] :
           a \in Ints0, b \in Ints0, c \in {-1, 1, 2}, e \in {0, 1, -2}, k \in {-1, 0, 2}}
Fs == {[a |-> <<p>>, b |-> <<q>>] : p \in {<<"1">>, <<"-2", "3">>, <<"0", "1">>}, q \in {<<"1">>, <<"2", "-5">>, <<"0", "0", "1">>}}
Lhss == {x \in Ulcd \cup Rats : x.kind = "ulcd" \/ PTrim(x.n) # <<>>}
(* a writer: signs as "+ -3" or "- 3", products with or without a dot, brackets as braces or parentheses *)
Styles == [signs : BOOLEAN, dot : BOOLEAN, par : BOOLEAN]
Sgn(c) == IF BSign(c) < 0 THEN <<"-", BAbs(c)>> ELSE <<c>>
Br(s, ts) == IF s.par THEN <<"(">> \o ts \o <<")">> ELSE <<"{">> \o ts \o <<"}">>
Times(s, x, y) == IF s.dot THEN x \o <<"\\cdot">> \o y ELSE x \o y
Mono(s, c, i) == IF i = 0 THEN Sgn(c)
                 ELSE LET p == IF i = 1 THEN <<"x">> ELSE <<"x", "^", "{", ToString(i), "}">>
                      IN IF c = "1" THEN p ELSE IF c = "-1" THEN <<"-">> \o p ELSE Times(s, Sgn(c), p)
Plus(s, xs) == FoldLeft(LAMBDA acc, x : IF acc = <<>> THEN x
                                        ELSE IF s.signs /\ Head(x) = "-" THEN acc \o x ELSE acc \o <<"+">> \o x, <<>>, xs)
Poly(s, p) == LET idx == SelectSeq([i \in 1..Len(p) |-> i], LAMBDA i : p[i] # "0")
              IN IF idx = <<>> THEN <<"0">> ELSE Plus(s, [j \in 1..Len(idx) |-> Mono(s, p[idx[j]], idx[j] - 1)])
FracT(x, y) == <<"\\frac", "{">> \o x \o <<"}", "{">> \o y \o <<"}">>
WriteLhs(s, x) ==
    IF x.kind = "ulcd" THEN
        LET parts == SelectSeq(<<IF x.p[1] = "0" THEN <<>> ELSE FracT(Sgn(x.p[1]), <<"x">>),
                                 FracT(<<"x">>, Sgn(x.p[2])),
                                 IF x.p[3] = "0" THEN <<>> ELSE Sgn(x.p[3])>>, LAMBDA y : y # <<>>)
        IN IF x.p[4] = "1" THEN Plus(s, parts) ELSE IF x.p[4] = "-1" THEN <<"-">> \o Br(s, Plus(s, parts))
           ELSE Times(s, FracT(<<"1">>, Sgn(x.p[4])), Br(s, Plus(s, parts)))
    ELSE LET q == FracT(Poly(s, x.n), Poly(s, x.d)) IN IF x.k = "0" THEN q ELSE q \o <<"+">> \o Sgn(x.k)
RECURSIVE WriteFrac(_, _, _, _)
WriteFrac(s, f, i, m) == IF i = m THEN Sgn(CF!Term(f.a, i)) \o <<"+", "\\dots">>
                         ELSE Sgn(CF!Term(f.a, i)) \o <<"+">> \o FracT(Sgn(CF!Term(f.b, i + 1)), WriteFrac(s, f, i + 1, m))
Fn(k) == <<"\\sqrt", "\\sin", "\\cos", "\\tan", "\\cot", "\\exp", "\\ln">>[k - 4]
WriteRhs(s, f, pf, m) ==
    LET c == WriteFrac(s, f, 0, m)
        k == pf \div 2
        x == IF k = 0 THEN c ELSE IF k <= 4 THEN Br(s, c) \o <<"^", ToString(k + 1)>> ELSE <<Fn(k)>> \o Br(s, c)
    IN IF pf % 2 = 1 THEN FracT(<<"1">>, x) ELSE x
Write(s, r) == WriteLhs(s, r.x) \o <<"=">> \o WriteRhs(s, r.f, r.pf, r.m)
F1 == [a |-> << <<"-2", "3">> >>, b |-> << <<"2", "-5">> >>]
F2 == [a |-> << <<"1">>, <<"0", "1">> >>, b |-> << <<"0", "0", "1">> >>]
X1 == [kind |-> "rat", n |-> <<"1", "-2">>, d |-> <<"3", "1">>, k |-> "2"]
Ress == {[x |-> x, f |-> F1, pf |-> 0, m |-> 1] : x \in Lhss} \cup
        {[x |-> X1, f |-> f, pf |-> pf, m |-> m] : f \in Fs \cup {F2}, pf \in 0..23, m \in 0..4}
Init == res \in Ress /\ style = [signs |-> FALSE, dot |-> FALSE, par |-> TRUE] /\ log = <<>>
Next == log = <<>> /\ style' \in Styles /\ log' = <<1>> /\ UNCHANGED res
Spec == Init /\ [][Next]_vars
Text0 == Write(style, res)
\* it is read back as what it states
ReadBack == log # <<>> => States(Text0, "x", res.x, res.f, res.pf, res.m)
\* and as nothing else: neither side is also another function
Others == {[kind |-> "ulcd", p |-> <<"1", "1", "0", "1">>], X1, [X1 EXCEPT !.k = "1"], [X1 EXCEPT !.n = <<"1", "2">>]}
NothingElse == log # <<>> =>
               /\ \A y \in Others : ~ FEq(Func(y), Func(res.x)) => ~ States(Text0, "x", y, res.f, res.pf, res.m)
               /\ \A pf \in {0, 1, 2, 11, 16, 19} : ~ Equal(Post(pf, Clean(Terms(res.f, res.m))), Post(res.pf, Clean(Terms(res.f, res.m)))) =>
                      ~ States(Text0, "x", res.x, res.f, pf, res.m)
               /\ (FConst(Func(res.x)) \/ ~ States(Text0, "y", res.x, res.f, res.pf, res.m))
\* cot is 1/tan, and that is the only function with two names
Positions == \A p, q \in 0..23 : p # q => (Equal(Post(p, Clean(Terms(F1, 1))), Post(q, Clean(Terms(F1, 1)))) <=> {p, q} \in {{16, 19}, {17, 18}})
(* behaviours for the driver: lists of results, functions and depths *)
Emit == log # <<>> => PrintT("TEST " \o ToJson([x |-> res.x, a |-> res.f.a, b |-> res.f.b, pf |-> res.pf, m |-> res.m]))
ASSUME Positions
==============================================================================
