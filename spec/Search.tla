--------------------------------- MODULE Search ---------------------------------
(* The meet in the middle over the real numbers: which entries and left-hand sides a *)
(* search enumerates, where a number is filed, how far two sides agree.              *)
EXTENDS Values, Mitm
PE == INSTANCE PolyEnum
DataOf(dump) == [k \in {dump[i].k : i \in 1..Len(dump)} |-> (CHOOSE i \in 1..Len(dump) : dump[i].k = k)]
Entry(x) == <<x.a, x.b, x.f>>
TableData(dump) == LET at == DataOf(dump) IN [k \in DOMAIN at |-> [i \in 1..Len(dump[at[k]].es) |-> Entry(dump[at[k]].es[i])]]
\* usable digits: the enclosure is narrow and the number is not longer than the precision
Usable(v, acc, dps) == /\ v.t = "iv"
                       /\ RLt(RMul(RSub(v.hi, v.lo), Ten(acc + 2)), ROne)
                       /\ DecExp(RMax(RAbs(v.lo), RAbs(v.hi))) + acc < dps - 3
Addresses(t, v, frac, dps) == {Address(t, NumOf(x)) : x \in Texts(v, frac, dps + 5)}

\* where a number may be filed by a build that starts from t: an entry of an earlier accuracy that a
\* number of this very build created takes precedence over those the number reached before
MayFile(t, v, frac, dps) == UNION {LET k == NumOf(x) IN {Address(t, k)} \cup (IF CurKey(t, k) \in Range(OldKeys(t, k)) THEN {CurKey(t, k)} ELSE {}) :
                                   x \in Texts(v, frac, dps + 5)}

\* the left-hand sides a search enumerates, at the constant q
LhsAt(e, q) == IF e.kind = "ulcd" THEN {[kind |-> "ulcd", p |-> Text(x)] : x \in Ulcds(e.ranges)}
               ELSE {[kind |-> "rat", n |-> Text(x[1]), d |-> Text(x[2]), k |-> "0"] : x \in Rationals(e.num, e.den, e.force, q)}
LhsSet(e) == LhsAt(e, RatOf(e.t))
Near(val, v) == v.t = "iv" => IsFin(val) /\ RLe(v.lo, RatOf(val)) /\ RLe(RatOf(val), v.hi)
\* left-hand sides are told apart by what they state: rational ones by their function
KeyOf(x) == IF x.kind = "ulcd" THEN <<x.p>>
            ELSE LET f == Func(x)
                     g == PGcd(f[1], f[2])
                     n == PQuo(f[1], g)
                     d == PQuo(f[2], g)
                 IN IF BSign(PLead(d)) < 0 THEN <<PNeg(n), PNeg(d)>> ELSE <<n, d>>
Sane(x) == x.kind \in {"ulcd", "rat"} /\ WellFormed(x)
\* the iteration counts convergence information allows
Need(c, N, n) == IF c.type \in {"exp", "super_exp"} /\ RLt(ROne, RatOf(c.base)) /\ RLt(RatOf(c.base), Ten(30))
                 THEN LET b == RMul(RBig(RFloor(RMul(RatOf(c.base), Ten(6)))), Ten(-6))
                          \* digits per iteration, from a power of the base
                          d == DecExp(RPow(b, 64)) - 1
                      IN IF d <= 0 THEN n ELSE LET k == ((N + 100) * 64) \div (d + 1) IN IF k < n THEN k ELSE n
                 ELSE n
Cuts(v, frac, dps, n) == {Prefix(x, n) : x \in Texts(v, frac, dps + 5)}
Orders(e, c) == IF e.mode = "info" THEN {Need(c, e.N, e.iters), e.iters} ELSE {e.iters}
RhsValues(e, c, s) ==
    LET vs == IF e.mode = "const" THEN {FracValue(c.a, c.b, e.iters, s.dps)}
              ELSE IF ZeroWithin(c.b, Need(c.conv, e.N, e.iters)) THEN {Nan}
              ELSE IF ZeroWithin(c.b, e.iters) THEN {Maybe}
              ELSE {ConvValue(c.a, c.b, k, s.dps) : k \in Orders(e, c.conv)}
    IN {Apply(c.f, v, s.dps) : v \in vs}
\* "keep" / "drop" / "open"
VerdictAt(e, c, s, q) ==
    LET rs == RhsValues(e, c, s)
        lv == LhsValue(c.x, q, s.dps)
        more == e.N + 2
        less == IF s.frac THEN e.N + 2 ELSE e.N + 1
        one(r) == IF r.t = "nan" THEN "drop"
                  ELSE IF lv.t = "nan" THEN "open"
                  ELSE IF ~ Usable(r, e.N, s.dps) \/ ~ Usable(lv, e.N, s.dps) THEN "open"
                  ELSE IF Cardinality(Cuts(r, s.frac, s.dps, more) \cup Cuts(lv, s.frac, s.dps, more)) = 1 THEN "keep"
                  ELSE IF Cuts(r, s.frac, s.dps, less) \cap Cuts(lv, s.frac, s.dps, less) = {} THEN "drop"
                  ELSE "open"
        vs == {one(r) : r \in rs}
    IN IF Cardinality(vs) = 1 THEN CHOOSE v \in vs : TRUE ELSE "open"
Verdict(e, c, s) == VerdictAt(e, c, s, RatOf(e.t))
Corr(x, y) == \* y is x up to a sign and an integer
    LET f == Func(x) g == Func(y) IN FIntConst(FSub(f, g)) \/ FIntConst(FSub(f, FNeg(g)))
==============================================================================
