------------------------------- MODULE ConvergeMC -------------------------------
(* C13 on the design: every sequence of filters over every list of results, and the   *)
(* theory of the ratios on every small fraction.                                     *)
EXTENDS Converge, Json
CONSTANTS Classes, Lists, MaxLen, MaxLog, Coeffs
VARIABLES rs, log, start
vars == <<rs, log, start>>
view == <<rs, start>>
FastClass(r) == r.class \in {"exp", "super_exp", "fast"}
Init == /\ \E n \in 0..MaxLen : \E c \in [1..n -> Classes] : start = [i \in 1..n |-> [id |-> i, class |-> c[i], note |-> "none"]]
        /\ rs = start
        /\ log = <<[op |-> "start", x |-> [i \in 1..Len(start) |-> start[i].class]]>>
Do(op, x) == Len(log) < MaxLog /\ log' = Append(log, [op |-> op, x |-> x]) /\ UNCHANGED start
DoFast == rs' = FilterFast(rs, FastClass) /\ Do("fast", <<>>)
DoWhite == \E w \in Lists : rs' = FilterWhite(rs, w) /\ Do("white", SetToSeq(w))
DoBlack == \E w \in Lists : rs' = FilterBlack(rs, w) /\ Do("black", SetToSeq(w))
Refused == rs' = rs /\ \E op \in {"both", "neither"} : Do(op, <<>>)
Next == DoFast \/ DoWhite \/ DoBlack \/ Refused
Spec == Init /\ [][Next]_vars

Ids(s) == [i \in 1..Len(s) |-> s[i].id]
InOrder == \A i, j \in 1..Len(rs) : i < j => rs[i].id < rs[j].id
OwnNote == \A i \in 1..Len(rs) : rs[i].class = start[rs[i].id].class /\ rs[i].note \in {"none", rs[i].class}
Idempotent == /\ FilterFast(FilterFast(rs, FastClass), FastClass) = FilterFast(rs, FastClass)
              /\ \A w \in Lists : /\ FilterWhite(FilterWhite(rs, w), w) = FilterWhite(rs, w)
                                  /\ FilterBlack(FilterBlack(rs, w), w) = FilterBlack(rs, w)
\* the verdict about one result does not depend on the others, nor on the order of the filters
OneByOne == \A w \in Lists : /\ FilterWhite(rs, w) = FoldLeft(LAMBDA acc, r : acc \o FilterWhite(<<r>>, w), <<>>, rs)
                              /\ FilterFast(FilterWhite(rs, w), FastClass) = FilterWhite(FilterFast(rs, FastClass), w)
\* what neither list names of the sortable results is split between them
Complement == \A w \in Lists : Range(Ids(FilterWhite(rs, w))) \cup Range(Ids(FilterBlack(rs, w)))
                                  = {rs[i].id : i \in {j \in 1..Len(rs) : rs[j].class # "raises"}}
Lost == [][\A i \in 1..Len(rs) : (\A j \in 1..Len(rs') : rs'[j].id # rs[i].id) =>
              CASE log'[Len(log')].op = "fast" -> ~ FastClass(rs[i])
                [] log'[Len(log')].op = "white" -> rs[i].class \notin Range(log'[Len(log')].x)
                [] log'[Len(log')].op = "black" -> rs[i].class \in Range(log'[Len(log')].x) \cup {"raises"}
                [] OTHER -> FALSE]_vars
Emit == Len(log) = MaxLog => PrintT("TEST " \o ToJson(log))

---------------------------------------------------------------------------
(* the theory, on fractions of small coefficients *)
P2 == {<<x, y>> : x \in Coeffs, y \in Coeffs}
P1 == {<<x>> : x \in Coeffs}
Fractions == {[a |-> <<p>>, b |-> <<q>>] : p \in P2 \cup P1, q \in P2 \cup P1}
             \cup {[a |-> <<p, q>>, b |-> <<r>>] : p \in P1, q \in P1, r \in P2}
             \cup {[a |-> <<p>>, b |-> <<q, r>>] : p \in P1, q \in P1, r \in P1}
N == 12
PQ(f, n) == LET m == CF!Steps(f, CF!Mat0(f), 0, n, FALSE).m IN <<m[1], m[3]>>
Delta(f, n) == LET x == PQ(f, n) y == PQ(f, n + 2) IN RAbs(RSub(RNorm(y), RNorm(x)))
QFun(f, k) == LET d == Dens(f, k) IN [n \in 0..k |-> d[n + 1]]
Def(f, n) == RatioDefined(f, QFun(f, n + 4), n)
R(f, n) == Ratio(f, QFun(f, n + 4), n)
NoZeroB(f, n) == \A i \in 1..n : CF!Term(f.b, i) # "0"
\* the shorter formula is the ratio of the differences
RatioIdentity == \A f \in Fractions : \A n \in 1..4 :
    Def(f, n) /\ NoZeroB(f, n + 4) => ~ RIsZero(Delta(f, n + 2)) /\ R(f, n) = RDiv(Delta(f, n), Delta(f, n + 2))
ShortAgrees == \A f \in Fractions : \A n \in {2, 4} : Def(f, n) =>
    LET q == QFun(f, n + 4) IN RClose(RatioShort(f, q, n), Ratio(f, q, n), 39)
DensAgree == \A f \in Fractions : DensAt(f, 6, {0, 3, 6}) = [n \in {0, 3, 6} |-> QFun(f, 6)[n]]
Neg(p) == [i \in 1..Len(p) |-> BNeg(p[i])]
Times(p, c) == [i \in 1..Len(p) |-> BMul(p[i], c)]
\* a fraction converges as its mirror image and its multiples do
Invariant == \A f \in Fractions : \A n \in {3} : Def(f, n) =>
    LET g == [a |-> [i \in 1..Len(f.a) |-> Neg(f.a[i])], b |-> f.b]
        h == [a |-> [i \in 1..Len(f.a) |-> Times(f.a[i], "3")], b |-> [i \in 1..Len(f.b) |-> Times(f.b[i], "9")]]
    IN R(g, n) = R(f, n) /\ (Def(h, n) => R(h, n) = R(f, n))
\* constant coefficients: x^2 = a x + b has two real roots of different size iff a # 0 and a^2 + 4 b > 0; the ratio tends
\* to the square of theirs
Const == {<<x, y>> \in Coeffs \X Coeffs : x # "0" /\ y # "0"}
Far == 40
SamplesOf(f) == LET q == QFun(f, Far + 5) IN
                [i \in 1..4 |-> <<Far - 3 + i, IF RatioDefined(f, q, Far - 3 + i) THEN Ratio(f, q, Far - 3 + i) ELSE RZero>>]
Discriminant == \A c \in Const :
    LET f == [a |-> <<<<c[1]>>>>, b |-> <<<<c[2]>>>>]
        disc == BAdd(BMul(c[1], c[1]), BMul("4", c[2]))
        s == SamplesOf(f)
    IN /\ BSign(disc) > 0 => Expo(s)
       /\ disc = "0" => Poly(s)
       /\ BSign(disc) < 0 => ~ Fast(s)
       /\ Fast(s) => ~ Slow(s)
ASSUME Theory == Coeffs # {} => RatioIdentity /\ ShortAgrees /\ DensAgree /\ Invariant /\ Discriminant
==============================================================================
