---------------------------------- MODULE Lhs ----------------------------------
(* Left-hand sides (lhs_evaluators.py): parameters denote an exact function of    *)
(* the constant; transformations of the parameters are transformations of the     *)
(* function; which parameters a configured range describes; which results state   *)
(* the same identity.                                                            *)
(* ULCD: <<u, l, c, d>> decimal strings; rational: [n, d, k] numerator,            *)
(* denominator and added integer.                                                *)
EXTENDS Poly, FiniteSets
UlcdFunc(u, l, c, d) == <<PTrim(<<BMul(u, l), BMul(c, l), "1">>), PTrim(<<"0", BMul(l, d)>>)>>
RatFunc(n, d, k) == <<PAdd(PTrim(n), PScale(PTrim(d), k)), PTrim(d)>>
Func(x) == IF x.kind = "ulcd" THEN UlcdFunc(x.p[1], x.p[2], x.p[3], x.p[4]) ELSE RatFunc(x.n, x.d, x.k)
WellFormed(x) == IF x.kind = "ulcd" THEN Len(x.p) = 4 /\ x.p[2] # "0" /\ x.p[4] # "0" ELSE PTrim(x.d) # <<>>

\* the object as a state machine
Flip(x) == IF x.kind = "ulcd" THEN [x EXCEPT !.p[4] = BNeg(@)] ELSE [x EXCEPT !.d = PNeg(PTrim(@)), !.k = BNeg(@)]
AddInt(x, n) == IF x.kind = "ulcd" THEN [x EXCEPT !.p[3] = BAdd(@, BMul(x.p[4], n))] ELSE [x EXCEPT !.k = BAdd(@, n)]
\* exact division of polynomials
RECURSIVE PQuo(_, _)
PQuo(p, q) == IF Len(p) < Len(q) THEN <<>>
              ELSE LET t == PShift(<<BDiv(PLead(p), PLead(q))>>, Len(p) - Len(q)) IN PAdd(t, PQuo(PSub(p, PMul(t, q)), q))
\* a canonical form: reduced, the same function
Reduced(x) == x.kind = "ulcd" \/ Coprime(PTrim(x.n), PTrim(x.d))
Canon(x) == IF x.kind = "ulcd" THEN x
            ELSE LET g == PGcd(PTrim(x.n), PTrim(x.d))
                 IN [x EXCEPT !.n = PQuo(PTrim(x.n), g), !.d = PQuo(PTrim(x.d), g)]
Degenerate(x) == IF x.kind = "ulcd" THEN x.p[1] = BNeg(x.p[2]) /\ BAbs(x.p[1]) = "1" ELSE FConst(Func(x))

---------------------------------------------------------------------------
(* Enumerations.  A range is [t |-> "n" / "pair" / "triple" / "set", v |-> ints]. *)
Ints(r, isd) == CASE r.t = "n" -> (IF isd THEN 1..r.v[1] ELSE -r.v[1]..r.v[1])
                  [] r.t = "pair" -> r.v[1]..(r.v[2] - 1)
                  [] r.t = "triple" -> LET s == r.v[3] IN
                        {x \in (IF s > 0 THEN r.v[1]..(r.v[2] - 1) ELSE (r.v[2] + 1)..r.v[1]) : (x - r.v[1]) % (IF s > 0 THEN s ELSE -s) = 0}
                  [] r.t = "set" -> {r.v[i] : i \in 1..Len(r.v)}
AbsInt(x) == IF x < 0 THEN -x ELSE x
Ulcds(rs) == {<<u, l, c, d>> \in Ints(rs[1], FALSE) \X Ints(rs[2], FALSE) \X Ints(rs[3], FALSE) \X Ints(rs[4], TRUE) :
                l # 0 /\ d # 0 /\ AbsInt(c) < AbsInt(d)}
\* all the vectors with coefficient i in rs[i][1]..rs[i][2]-1
RECURSIVE Vectors(_)
Vectors(rs) == IF rs = <<>> THEN {<<>>} ELSE {Append(v, x) : v \in Vectors(SubSeq(rs, 1, Len(rs) - 1)), x \in rs[Len(rs)][1]..(rs[Len(rs)][2] - 1)}
Text(v) == [i \in 1..Len(v) |-> ToString(v[i])]
DegInt(v) == LET s == {i \in 1..Len(v) : v[i] # 0} IN IF s = {} THEN -1 ELSE (CHOOSE i \in s : \A j \in s : j <= i) - 1
Rationals(nr, dr, force, x) ==
    {<<n, d>> \in Vectors(nr) \X Vectors(dr) :
        /\ DegInt(n) >= 0 /\ DegInt(d) >= 0
        /\ DegInt(n) >= 1 \/ DegInt(d) >= 1
        /\ force => DegInt(n) >= DegInt(d)
        /\ ~ RIsZero(PEval(Text(n), x)) /\ ~ RIsZero(PEval(Text(d), x))}

---------------------------------------------------------------------------
(* Identities f(a; b) = L.  pf: post-processing; Reciprocal(f, g): g = 1/f.        *)
Reciprocal(f, g) == f # g /\ (f \div 2) = (g \div 2)
NegFamily(a) == [i \in 1..Len(a) |-> PNeg(a[i])]
EqUpToSignAndConst(f, g) == FConst(FSub(f, g)) \/ FConst(FSub(f, FNeg(g)))
SameIdentity(r, s) ==
    /\ r.b = s.b
    /\ r.a = s.a \/ r.a = NegFamily(s.a)
    /\ r.pf = s.pf \/ Reciprocal(r.pf, s.pf)
    /\ IF r.pf = s.pf THEN EqUpToSignAndConst(r.f, s.f)
       ELSE s.f[1] # <<>> /\ r.f[1] # <<>> /\ (EqUpToSignAndConst(r.f, FInv(s.f)) \/ EqUpToSignAndConst(FInv(r.f), s.f))
\* what the filter may merge: between ULCD left-hand sides no constant is dropped
Merged(r, s) == SameIdentity(r, s) /\ (r.kind = "ulcd" /\ s.kind = "ulcd" => FEq(r.f, s.f) \/ FEq(r.f, FNeg(s.f)))
Repeats(r, s) == r.a = s.a /\ r.b = s.b /\ r.pf = s.pf /\ r.raw = s.raw
==============================================================================
