------------------------------- MODULE ConstsMC -------------------------------
(* The certified numbers against their other characterisations, and the working    *)
(* precision under every sequence of requests.                                     *)
EXTENDS Consts, Json, SequencesExt
CONSTANTS Precs, MaxLog, Depth
VARIABLES dps, log
vars == <<dps, log>>

Names == Plain \cup DOMAIN Indexed
IndexOf(n) == IF HasIndex(n) THEN Indexed[n] ELSE {0}
Forms == {"positional", "keyword", "partial"}
---------------------------------------------------------------------------
(* identities, to Depth digits *)
Near(x, y, d) == LET z == ISub(x, y) IN BCmp(BMax(BAbs(z[1]), BAbs(z[2])), BPow("10", CD - d)) <= 0
IPow(x, n) == FoldLeft(LAMBDA acc, k : IMul(acc, x, CD), x, [k \in 1..(n - 1) |-> k])
Narrow == \A n \in Names : \A i \in IndexOf(n) : LET x == Number(n, i) IN BCmp(x[1], x[2]) <= 0 /\ Near(<<x[1], x[1]>>, <<x[2], x[2]>>, IF n = "feig" THEN 102 ELSE 168)
\* zeta(2k) = (-1)^(k+1) B_2k (2 pi)^2k / (2 (2k)!)
Bernoulli == <<RFrac("1", "6"), RFrac("-1", "30"), RFrac("1", "42"), RFrac("-1", "30"), RFrac("5", "66"),
               RFrac("-691", "2730"), RFrac("7", "6"), RFrac("-3617", "510"), RFrac("43867", "798"), RFrac("-174611", "330")>>
Fact(n) == FoldLeft(LAMBDA acc, k : BMul(acc, ToString(k)), "1", [k \in 1..n |-> k])
EvenZeta == \A k \in 1..10 :
    LET c == RDiv(RMul(RAbs(Bernoulli[k]), Two(2 * k - 1)), RBig(Fact(2 * k)))
        p == IPow(CPi, 2 * k)
    IN Near(IScale(CZeta[2 * k], c[2]), IScale(p, c[1]), Depth)
\* zeta(3) = 5/2 sum (-1)^(k-1) / (k^3 C(2k, k))
Apery == LET n == 320
             f(acc, k) == LET c == BDiv(BMul(acc[1], ToString(2 * (2 * k - 1))), ToString(k))
                              t == BDiv(BPow("10", CD), BMul(BPow(ToString(k), 3), c))
                          IN <<c, IF k % 2 = 1 THEN BAdd(acc[2], t) ELSE BSub(acc[2], t)>>
             s == FoldLeft(f, <<"1", "0">>, [k \in 1..n |-> k])[2]
         IN Near(IDivN(IScale(IWiden(<<s, s>>, n), "5"), "2"), CZeta[3], Depth)
\* Euler-Maclaurin: zeta(s) = sum_{k<N} k^-s + N^(1-s)/(s-1) + N^-s/2 + sum_j B_2j/(2j)! s(s+1)...(s+2j-2) N^(1-s-2j),
\* with ten terms the error is below the first one left out
EMDepth == 40
EM(s) == LET N == 150
             S == RBig(BPow("10", CD))
             head == FoldLeft(LAMBDA acc, k : BAdd(acc, BDiv(BPow("10", CD), BPow(ToString(k), s))), "0", [k \in 1..(N - 1) |-> k])
             rise(j) == FoldLeft(LAMBDA acc, k : BMul(acc, ToString(s + k)), "1", [k \in 1..(2 * j - 1) |-> k - 1])
             term(j) == RMul(RDiv(RMul(Bernoulli[j], RBig(rise(j))), RBig(Fact(2 * j))), RFrac("1", BPow(ToString(N), s + 2 * j - 1)))
             tail == FoldLeft(LAMBDA acc, j : RAdd(acc, term(j)),
                              RAdd(RFrac("1", BMul(ToString(s - 1), BPow(ToString(N), s - 1))), RFrac("1", BMul("2", BPow(ToString(N), s)))), [j \in 1..10 |-> j])
             v == BAdd(head, RFloor(RMul(tail, S)))
         IN IWiden(<<v, v>>, 2 * N)
AllZeta == \A s \in 2..20 : Near(EM(s), CZeta[s], EMDepth)
\* gamma = H_n - ln n - 1/2n + sum B_2k / (2k n^2k)
Gamma == LET N == 200
             h == FoldLeft(LAMBDA acc, k : BAdd(acc, BDiv(BPow("10", CD), ToString(k))), "0", [k \in 1..N |-> k])
             t == FoldLeft(LAMBDA acc, j : RAdd(acc, RDiv(Bernoulli[j], RBig(BMul(ToString(2 * j), BPow(ToString(N), 2 * j))))),
                           RFrac("-1", ToString(2 * N)), [j \in 1..10 |-> j])
             v == BAdd(h, RFloor(RMul(t, RBig(BPow("10", CD)))))
         IN Near(ISub(IWiden(<<v, v>>, 2 * N), ILn(RInt(N), CD)), CEuler, EMDepth)
Golden == Near(IMul(CPhi, CPhi, CD), IAdd(CPhi, IFrom(ROne, CD)), Depth)
\* 2 sin(pi/18) is the root of x^3 - 3x + 1 in [0, 1]; its complement is the other percolation threshold
Percolation == LET x == Number("percolation", 1)
                   one == IFrom(ROne, CD)
               IN /\ Near(IAdd(IPow(x, 3), one), IScale(x, "3"), Depth)
                  /\ BSign(x[1]) > 0 /\ BCmp(x[2], one[1]) < 0
                  /\ Near(IAdd(x, Number("percolation", 0)), one, Depth)
\* e = 1/e^-1 = e^(1/2)^2 and ln e = 1
Euler2 == LET i == ExpTaylor(IFrom(RInt(-1), CD), CD)
              h == ExpTaylor(IFrom(<<"1", "2">>, CD), CD)
          IN Near(IMul(i, CE, CD), IFrom(ROne, CD), Depth) /\ Near(IMul(h, h, CD), CE, Depth)
             /\ Near(ILn(ILo(CE, CD), CD), IFrom(ROne, CD), Depth)
\* the working precision does not reach beyond what a constant's own digits allow, and neighbours are told apart
Apart == \A n \in Names, m \in Names : \A i \in IndexOf(n), j \in IndexOf(m) :
            (<<n, i>> # <<m, j>> /\ {n, m} # {"apery", "zeta"}) =>
               \/ ~ MayReturn(n, i, 15, ILo(Number(m, j), CD))
ASSUME Narrow /\ Golden /\ Percolation /\ Euler2 /\ EvenZeta /\ Apery /\ AllZeta /\ Gamma
ASSUME Apart

---------------------------------------------------------------------------
Init == dps \in Precs \ {0} /\ log = <<>>
Request(n, i, p, form) == /\ Exists(n, i)
                          /\ dps' = After(dps, p)
                          /\ log' = Append(log, [op |-> "get", name |-> n, i |-> i, prec |-> p, form |-> form])
\* somebody else changes the working precision
Other(p) == p # 0 /\ dps' = p /\ log' = Append(log, [op |-> "set", name |-> "pi", i |-> 0, prec |-> p, form |-> "positional"])
Going == Len(log) < MaxLog /\ (log # <<>> => Last(log).op # "end")
Next == \/ /\ Going
           /\ Len(log) = MaxLog - 1
           /\ log' = Append(log, [op |-> "end", name |-> "pi", i |-> 0, prec |-> 0, form |-> "positional"]) /\ UNCHANGED dps
        \/ /\ Going
           /\ Len(log) < MaxLog - 1
           /\ \/ \E n \in Names : \E i \in IndexOf(n), p \in Precs, form \in Forms : Request(n, i, p, form)
              \/ \E p \in Precs : Other(p)
Spec == Init /\ [][Next]_vars
View == <<dps, Len(log), IF log = <<>> THEN 0 ELSE Last(log).prec>>
\* the working precision is the last one anybody named, and a request that names none changes nothing
Named == SelectSeq(log, LAMBDA e : e.prec # 0)
LastNamed == Named # <<>> => dps = Last(Named).prec
NoneUnchanged == [][\A n \in Names : \A i \in IndexOf(n), form \in Forms : Request(n, i, 0, form) => dps' = dps]_vars
Emit == (log # <<>> /\ Last(log).op = "end") => PrintT("TEST " \o ToJson(Front(log)))
==============================================================================
