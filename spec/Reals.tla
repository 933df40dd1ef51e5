-------------------------------- MODULE Reals --------------------------------
(* Certified enclosures of real functions: an interval is <<lo, hi>>, two       *)
(* integers counting units of 10^-D.  Every operator rounds outwards.            *)
EXTENDS Rat

IFrom(q, D) == <<BDiv(BMul(q[1], BPow("10", D)), q[2]),
                 BNeg(BDiv(BNeg(BMul(q[1], BPow("10", D))), q[2]))>>
ILo(i, D) == RFrac(i[1], BPow("10", D))
IHi(i, D) == RFrac(i[2], BPow("10", D))
IAdd(x, y) == <<BAdd(x[1], y[1]), BAdd(x[2], y[2])>>
INeg(x) == <<BNeg(x[2]), BNeg(x[1])>>
ISub(x, y) == IAdd(x, INeg(y))
IScale(x, n) == IF BSign(n) >= 0 THEN <<BMul(x[1], n), BMul(x[2], n)>> ELSE <<BMul(x[2], n), BMul(x[1], n)>>
BMin(a, b) == IF BCmp(a, b) <= 0 THEN a ELSE b
BMax(a, b) == IF BCmp(a, b) >= 0 THEN a ELSE b
BCeilDiv(a, b) == BNeg(BDiv(BNeg(a), b))
\* divide by a positive integer
IDivN(x, n) == <<BDiv(x[1], n), BCeilDiv(x[2], n)>>
IMul(x, y, D) == LET a == BMul(x[1], y[1])  b == BMul(x[1], y[2])
                     c == BMul(x[2], y[1])  d == BMul(x[2], y[2])
                     S == BPow("10", D)
                 IN <<BDiv(BMin(BMin(a, b), BMin(c, d)), S), BCeilDiv(BMax(BMax(a, b), BMax(c, d)), S)>>
IHasZero(x) == BSign(x[1]) <= 0 /\ BSign(x[2]) >= 0
\* 1/x, x not containing zero
IInv(x, D) == LET S == BPow("10", 2 * D) IN
              IF BSign(x[1]) > 0 THEN <<BDiv(S, x[2]), BCeilDiv(S, x[1])>>
              ELSE <<BDiv(S, x[2]), BCeilDiv(S, x[1])>>
IDiv(x, y, D) == IMul(x, IInv(y, D), D)
IAbs(x) == IF BSign(x[1]) >= 0 THEN x ELSE IF BSign(x[2]) <= 0 THEN INeg(x)
           ELSE <<"0", BMax(BNeg(x[1]), x[2])>>
\* widen by n units
IWiden(x, n) == <<BSub(x[1], ToString(n)), BAdd(x[2], ToString(n))>>
IShift(x, D, E) == \* from 10^-D units to 10^-E units, E <= D
    <<BDiv(x[1], BPow("10", D - E)), BCeilDiv(x[2], BPow("10", D - E))>>
ISqrt(q, D) == \* of the rational q >= 0
    LET m == BIsqrt(BDiv(BMul(q[1], BPow("10", 2 * D)), q[2])) IN <<m, BAdd(m, "1")>>
Nats(n) == [i \in 1..n |-> i]

\* atan(1/k) by its alternating series; terms are truncated, one unit each
AtanInv(k, D) ==
    LET n == IF k >= 200 THEN D \div 4 + 5 ELSE (D * 75) \div 100 + 5     \* k >= 5
        k2 == ToString(k * k)
        f(acc, i) == LET p == BDiv(acc[1], k2)
                         t == BDiv(p, ToString(2 * i + 1))
                     IN <<p, IF i % 2 = 1 THEN BSub(acc[2], t) ELSE BAdd(acc[2], t)>>
        p0 == BDiv(BPow("10", D), ToString(k))
        r == FoldLeft(f, <<p0, p0>>, Nats(n))[2]
    IN IWiden(<<r, r>>, 2 * n + 5)
MachinPi(D) == ISub(IScale(AtanInv(5, D), "16"), IScale(AtanInv(239, D), "4"))
PiDigits == 420
PiBig == MachinPi(PiDigits)
IPi(D) == IShift(PiBig, PiDigits, D)

\* ln y for a rational y in [1/2, 2]: 2 atanh((y-1)/(y+1)), |z| <= 1/3
LnNear1(y, D) ==
    LET z == RDiv(RSub(y, ROne), RAdd(y, ROne))
        zi == IFrom(z, D)
        z2 == IMul(zi, zi, D)
        n == (D * 107) \div 100 + 5                       \* 9^-n < 10^-D
        f(acc, i) == LET p == IMul(acc[1], z2, D) IN <<p, IAdd(acc[2], IDivN(p, ToString(2 * i + 1)))>>
        r == FoldLeft(f, <<zi, zi>>, Nats(n))[2]
    IN IWiden(IScale(r, "2"), 4)
Ln2(D) == LnNear1(RInt(2), D)
RECURSIVE LnShift(_, _, _)
\* <<k, y>>: q = 2^k y with y in [1/2, 2]
LnShift(q, k, step) ==
    IF RLt(RInt(2), q) THEN LnShift(RDiv(q, Two(step)), k + step, IF step > 1 THEN step \div 2 ELSE 1)
    ELSE IF RLt(q, <<"1", "2">>) THEN LnShift(RMul(q, Two(step)), k - step, IF step > 1 THEN step \div 2 ELSE 1)
    ELSE <<k, q>>
Log2Approx(q) == (3322 * (DecExp(q) - 1)) \div 1000
ILn(q, D) == LET k0 == Log2Approx(q)
                 ky == LnShift(RDiv(q, Two(k0)), k0, 4)
             IN IAdd(LnNear1(ky[2], D), IScale(Ln2(D), ToString(ky[1])))

\* Taylor sums for |x| < 2 given as an interval
ExpTaylor(x, D) ==
    LET n == D + 20
        f(acc, i) == LET t == IDivN(IMul(acc[1], x, D), ToString(i)) IN <<t, IAdd(acc[2], t)>>
        one == IFrom(ROne, D)
    IN IWiden(FoldLeft(f, <<one, one>>, Nats(n))[2], 4)
\* e^q: q = k ln 2 + r, |r| < 1; the result is a pair of rationals
ExpRat(q, D) == LET k == RFloor(RMul(q, <<"1000000", "693147">>))
                    G == D + Len(k) + 5
                    r == ISub(IFrom(q, G), IScale(Ln2(G), k))
                    v == ExpTaylor(r, G)
                    s == IF BSign(k) >= 0 THEN <<BPow("2", BToInt(k)), "1">> ELSE <<"1", BPow("2", BToInt(BNeg(k)))>>
                IN <<RMul(ILo(v, G), s), RMul(IHi(v, G), s)>>

\* sin and cos of a rational: reduce by 2 pi, then Taylor on |x| <= 4
SinCos(q, D) ==
    LET extra == IF DecExp(q) > 0 THEN DecExp(q) ELSE 0
        G == D + extra + 10
        pi2 == IScale(IPi(G), "2")
        xs == IFrom(q, G)
        k == BDiv(BAdd(xs[1], BDiv(pi2[1], "2")), pi2[1])
        x == ISub(xs, IScale(pi2, k))
        x2 == INeg(IMul(x, x, G))
        n == (G \div 2) + 25
        fs(acc, i) == LET t == IDivN(IMul(acc[1], x2, G), ToString((2 * i) * (2 * i + 1))) IN <<t, IAdd(acc[2], t)>>
        fc(acc, i) == LET t == IDivN(IMul(acc[1], x2, G), ToString((2 * i - 1) * (2 * i))) IN <<t, IAdd(acc[2], t)>>
        one == IFrom(ROne, G)
    IN <<IShift(IWiden(FoldLeft(fs, <<x, x>>, Nats(n))[2], 4), G, D),
         IShift(IWiden(FoldLeft(fc, <<one, one>>, Nats(n))[2], 4), G, D)>>

\* e, the golden ratio
IE(D) == LET v == ExpTaylor(IFrom(ROne, D), D) IN v
IPhi(D) == IDivN(IAdd(IFrom(ROne, D), ISqrt(RInt(5), D)), "2")
\* Euler-Mascheroni by Brent and McMillan: A/B - ln n, error below 4 e^(-4n)
IEuler(D) ==
    LET n == (D * 58) \div 100 + 5
        m == 4 * n + 10
        S == BPow("10", D)
        n2 == ToString(n * n)
        \* acc: <<(n^k/k!)^2, H_k, A, B>> ; truncations below m units in each sum
        f(acc, k) == LET t == BDiv(BMul(acc[1], n2), ToString(k * k))
                         h == BAdd(acc[2], BDiv(S, ToString(k)))
                     IN <<t, h, BAdd(acc[3], BDiv(BMul(t, h), S)), BAdd(acc[4], t)>>
        r == FoldLeft(f, <<S, "0", "0", S>>, Nats(m))
        v == BDiv(BMul(r[3], S), r[4])
    IN IWiden(ISub(<<v, v>>, ILn(RInt(n), D)), 100 * m)
\* zeta(s), s >= 2, by Borwein's alternating sum; error below 3 / (3+sqrt 8)^n
IZeta(s, D) ==
    LET n == (D * 132) \div 100 + 8
        \* e_i = n (n+i-1)! 4^i / ((n-i)! (2i)!), e_0 = 1
        g(acc, i) == LET e == BDiv(BMul(BMul(acc[1], "4"), BMul(ToString(n + i - 1), ToString(n - i + 1))),
                                   ToString((2 * i) * (2 * i - 1)))
                     IN <<e, Append(acc[2], BAdd(acc[2][Len(acc[2])], e))>>
        d == FoldLeft(g, <<"1", <<"1">> >>, Nats(n))[2]   \* d[k+1] = d_k
        dn == d[n + 1]
        S == BPow("10", D)
        f(acc, k) == LET t == BDiv(BMul(BSub(d[k], dn), S), BPow(ToString(k), s))
                     IN IF k % 2 = 1 THEN BAdd(acc, t) ELSE BSub(acc, t)
        sum == FoldLeft(f, "0", Nats(n))
        \* -sum / (dn (1 - 2^(1-s)))
        num == BMul(BNeg(sum), BPow("2", s - 1))
        den == BMul(dn, BSub(BPow("2", s - 1), "1"))
        v == BDiv(num, den)
    IN IWiden(<<v, v>>, 10)
\* 1 - 2 sin(pi/18) and 2 sin(pi/18)
ISinPi18(D) ==
    LET G == D + 10
        x == IDivN(IPi(G), "18")
        x2 == INeg(IMul(x, x, G))
        f(acc, i) == LET t == IDivN(IMul(acc[1], x2, G), ToString((2 * i) * (2 * i + 1))) IN <<t, IAdd(acc[2], t)>>
    IN IShift(IWiden(FoldLeft(f, <<x, x>>, Nats(G \div 2 + 10))[2], 4), G, D)
==============================================================================
