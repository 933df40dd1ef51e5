------------------------------- MODULE PolyEnum -------------------------------
(* The enumeration of the right-hand side (enum_poly_params.py): which pairs of  *)
(* polynomial families a configured range describes, and the root filters.       *)
(* A polynomial is a sequence of decimal strings, constant first; a family a      *)
(* sequence of polynomials; a range a family of <<lo, hi>> pairs (lo..hi-1).      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, BigNum

FlatMap(F(_), s) == FoldLeft(LAMBDA acc, x : acc \o F(x), <<>>, s)
\* the cartesian product of a sequence of sequences, in order
Product(ss) == FoldLeft(LAMBDA acc, s : FlatMap(LAMBDA t : [i \in 1..Len(s) |-> Append(t, s[i])], acc), <<<<>>>>, ss)
Coeffs(r) == IF r[2] <= r[1] THEN <<>> ELSE [i \in 1..(r[2] - r[1]) |-> ToString(r[1] + i - 1)]
RawPolys(rp) == Product([j \in 1..Len(rp) |-> Coeffs(rp[j])])
RawFamilies(r) == Product([i \in 1..Len(r) |-> RawPolys(r[i])])

\* indexed: c_0 x^n + c_1 (x+1)^n + ... + c_n (x+n)^n expanded
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
Indexed(p) == LET n == Len(p) - 1 IN
    [j \in 1..Len(p) |->
        FoldLeft(LAMBDA acc, i : BAdd(acc, BMul(BMul(p[i], ToString(Binom(n, j - 1))), BPow(ToString(i - 1), n - (j - 1)))),
                 "0", [i \in 1..Len(p) |-> i])]
\* sparse: the k coefficients placed at k of the n degrees, in order
Masks(n, k) == LET S == {m \in SUBSET (1..n) : Cardinality(m) = k} IN SetToSeq(S)
Place(p, mask, n) == LET ms == SetToSortSeq(mask, LAMBDA a, b : a < b)
                     IN [d \in 1..n |-> IF d \in mask THEN p[CHOOSE t \in 1..Len(ms) : ms[t] = d] ELSE "0"]
Sparse(f, n) == LET ms == Masks(n, Len(f[1]))
                    choices == Product([i \in 1..Len(f) |-> ms])
                IN [c \in 1..Len(choices) |-> [i \in 1..Len(f) |-> Place(f[i], choices[c][i], n)]]
Squeeze(f) == IF Len(f) > 1 /\ \A i \in 1..Len(f) : f[i] = f[1] THEN <<f[1]>> ELSE f
\* every description of a family within a range, with repetitions
Families(kind, r, n) ==
    LET raw == RawFamilies(r)
        f == CASE kind = "normal" -> raw
               [] kind = "indexed" -> [i \in 1..Len(raw) |-> [j \in 1..Len(raw[i]) |-> Indexed(raw[i][j])]]
               [] kind = "sparse" -> FlatMap(LAMBDA x : Sparse(x, n), raw)
    IN [i \in 1..Len(f) |-> Squeeze(f[i])]

---------------------------------------------------------------------------
IsZeroPoly(p) == \A i \in 1..Len(p) : p[i] = "0"
Degree(p) == LET s == {i \in 1..Len(p) : p[i] # "0"} IN IF s = {} THEN -1 ELSE (CHOOSE i \in s : \A j \in s : j <= i) - 1
\* only exponential convergence: without interlaces, deg b <= 2 deg a
DegreesAllow(a, b) == Len(a) = 1 /\ Len(b) = 1 => Degree(b[1]) <= 2 * Degree(a[1])

(* integer roots *)
At(p, x) == FoldRight(LAMBDA c, acc : BAdd(c, BMul(acc, x)), p, "0")
Low(p) == CHOOSE i \in 1..Len(p) : p[i] # "0" /\ \A j \in 1..(i - 1) : p[j] = "0"
\* without the factor x^k and leading zeros
Core(p) == SubSeq(p, Low(p), Degree(p) + 1)
Divides(d, x) == BMod(x, d) = "0"
\* the integer roots of a polynomial of degree <= 2 with nonzero constant and leading coefficients
QuadRoots(c) ==
    CASE Len(c) = 1 -> {}
      [] Len(c) = 2 -> IF Divides(c[2], c[1]) THEN {BDiv(BNeg(c[1]), c[2])} ELSE {}
      [] Len(c) = 3 -> LET D == BSub(BMul(c[2], c[2]), BMul("4", BMul(c[1], c[3])))
                           s == BIsqrt(D)
                           d == BMul("2", c[3])
                       IN IF BSign(D) < 0 THEN {}
                          ELSE IF BMul(s, s) # D THEN {}
                          ELSE {BDiv(x, d) : x \in {y \in {BSub(s, c[2]), BSub(BNeg(s), c[2])} : Divides(d, y)}}
\* no positive integer root may pass the enumeration filter (degree at most two after factoring)
MustReject(p) == IsZeroPoly(p) \/ (Len(Core(p)) <= 3 /\ \E r \in QuadRoots(Core(p)) : BSign(r) > 0)
\* a polynomial without any integer root must pass; a root among -B..B, or none by a residue or by the bound
RECURSIVE RootFreeMod(_, _)
RootFreeMod(p, ms) == ms # <<>> /\ ((\A x \in 0..(Head(ms) - 1) : BMod(At(p, ToString(x)), ToString(Head(ms))) # "0") \/ RootFreeMod(p, Tail(ms)))
RootBound(c) == LET a(i) == BAbs(c[i])
                    m == FoldLeft(LAMBDA acc, i : IF BCmp(a(i), acc) > 0 THEN a(i) ELSE acc, "0", [i \in 1..Len(c) |-> i])
                IN BAdd("2", BDiv(m, a(Len(c))))
NoIntRoot(p) ==
    IF IsZeroPoly(p) THEN FALSE
    ELSE IF p[1] = "0" THEN FALSE
    ELSE LET c == Core(p) IN
         CASE Len(c) <= 3 -> QuadRoots(c) = {}
           [] OTHER -> \/ RootFreeMod(p, <<2, 3, 5, 7, 11, 13>>)
                       \/ (BCmp(RootBound(c), "120") <= 0 /\
                           \A x \in 1..120 : At(p, ToString(x)) # "0" /\ At(p, ToString(-x)) # "0")
FamilyRejected(f) == \E i \in 1..Len(f) : MustReject(f[i])
FamilyRootFree(f) == \A i \in 1..Len(f) : NoIntRoot(f[i])
==============================================================================
