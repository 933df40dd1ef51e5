--------------------------------- MODULE Store ---------------------------------
(* Table files: names, versions, which one an operation reads and writes.           *)
EXTENDS Text, FiniteSets
\* the version a file name is of the table base: -1 when it is another file; a table without a number is the oldest
VersionOf(base, f) ==
    IF f = base \o ".pkl" THEN 0
    ELSE LET p == base \o "_v"
         IN IF StartsWith(f, 1, p) /\ EndsIn(f, ".pkl") /\ Len(f) > Len(p) + 4
               /\ AllDigits(SubSeq(f, Len(p) + 1, Len(f) - 4))
            THEN BToInt(SubSeq(f, Len(p) + 1, Len(f) - 4)) ELSE -1
\* the first position of "_v" followed by digits up to ".pkl" at the end; 0 if none
RECURSIVE VMark(_, _)
VMark(f, i) == IF i < 1 THEN 0
               ELSE IF StartsWith(f, i, "_v") /\ i + 6 <= Len(f) /\ AllDigits(SubSeq(f, i + 2, Len(f) - 4)) THEN i
               ELSE VMark(f, i - 1)
WithExt(f) == IF EndsIn(f, ".pkl") THEN f ELSE f \o ".pkl"
BaseOf(given) == LET f == WithExt(given)
                     m == VMark(f, Len(f))
                 IN IF m = 0 THEN SubSeq(f, 1, Len(f) - 4) ELSE SubSeq(f, 1, m - 1)
\* the version named in the configuration, -1 if it names none
GivenVersion(given) == LET f == WithExt(given) IN IF VMark(f, Len(f)) = 0 THEN -1 ELSE VersionOf(BaseOf(given), f)
Versions(base, files) == {f \in files : VersionOf(base, f) >= 0}
Newest(base, files) == {f \in Versions(base, files) : \A g \in Versions(base, files) : VersionOf(base, g) <= VersionOf(base, f)}
NewestNumber(base, files) == IF Versions(base, files) = {} THEN -1 ELSE VersionOf(base, CHOOSE f \in Newest(base, files) : TRUE)
VName(base, v) == base \o "_v" \o ToString(v) \o ".pkl"
\* the files an operation may resolve to when the configuration is read
Resolve(op, given, files) ==
    LET base == BaseOf(given)
        n == NewestNumber(base, files)
    IN IF n < 0 THEN {IF GivenVersion(given) < 0 THEN VName(base, 1) ELSE WithExt(given)}
       ELSE IF op = "generate" THEN {VName(base, n + 1)}
       ELSE Newest(base, files)
==============================================================================
