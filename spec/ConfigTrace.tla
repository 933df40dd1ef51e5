------------------------------ MODULE ConfigTrace ------------------------------
(* Configuration files parsed, written and distributed by the real code.           *)
EXTENDS TraceBase, Config, Split
St == INSTANCE Store
VARIABLES l, tick
E == Trace[l]
Val(vals, k) == LET js == {j \in 1..Len(vals) : vals[j][1] = k} IN IF js = {} THEN "missing" ELSE vals[CHOOSE j \in js : TRUE][2]
Unquote(c) == IF Len(c) >= 3 /\ At(c, 1) = "s" THEN SubSeq(c, 3, Len(c) - 1) ELSE ""
RECURSIVE LastSlash(_, _)
LastSlash(s, i) == IF i < 1 THEN 0 ELSE IF At(s, i) = "/" THEN i ELSE LastSlash(s, i - 1)
DirOf(p) == LET i == LastSlash(p, Len(p)) IN IF i = 0 THEN "." ELSE SubSeq(p, 1, i - 1)
FileOf(p) == SubSeq(p, LastSlash(p, Len(p)) + 1, Len(p))

---------------------------------------------------------------------------
(* C16: a file's settings.  files: the names beside the table *)
Parse(e) ==
    IF Refused(e.pairs) THEN <<<<e.exc # "" /\ e.exc # "Hang", "C16", "a malformed or unknown value is refused">>>>
    ELSE IF e.exc # "" THEN <<<<FALSE, "C16", "a well-formed configuration is refused: " \o e.exc>>>>
    ELSE LET op == Unquote(Op(e.pairs))
             given == Unquote(Meaning(e.pairs, "hashtable_file"))
             got == Unquote(Val(e.vals, "hashtable_file"))
             keys == (Settings \cup {e.pairs[j][1] : j \in 1..Len(e.pairs)}) \ {"hashtable_file"}
             wrong == {k \in keys : Val(e.vals, k) # Resolved(e.pairs, k)}
         IN << <<wrong = {}, "C16", "the values the notation denotes">>,
               <<DirOf(got) = DirOf(given), "C16", "the table's directory, with its case">>,
               <<St!BaseOf(FileOf(got)) = St!BaseOf(FileOf(given)), "C16", "the table's name, with its case">>,
               <<FileOf(got) \in St!Resolve(op, FileOf(given), Range(e.files)), "C15", "the version of the table">> >>
\* what was parsed from a file a run has written, against what the run used
Written(e) ==
    IF e.exc # "" THEN <<<<FALSE, "C16", "the written configuration cannot be parsed: " \o e.exc>>>>
    ELSE << <<\A k \in Settings \ {"hashtable_file"} : Val(e.got, k) = Val(e.used, k), "C16", "a written configuration parses to the settings that were used">>,
            <</\ DirOf(Unquote(Val(e.got, "hashtable_file"))) = DirOf(Unquote(Val(e.used, "hashtable_file")))
              /\ St!BaseOf(FileOf(Unquote(Val(e.got, "hashtable_file")))) = St!BaseOf(FileOf(Unquote(Val(e.used, "hashtable_file")))),
              "C16", "a written configuration names the table that was used">> >>

---------------------------------------------------------------------------
(* C14 *)
Flat(ab) == FlattenSeq(ab[1]) \o FlattenSeq(ab[2])
Shape(ab) == << [i \in 1..Len(ab[1]) |-> Len(ab[1][i])], [i \in 1..Len(ab[2]) |-> Len(ab[2][i])] >>
First(ab) == LET n == Len(FlattenSeq(ab[1])) IN
             [i \in 1..Len(ab[1][1]) |-> i] \o [i \in 1..Len(ab[2][1]) |-> n + i]
Splits(e, ab, exc, parts) ==
    LET box == Flat(ab) IN
    IF MustRefuse(box, e.n) THEN <<<<exc # "" /\ exc # "Hang", "C14", "other split numbers and indivisible ranges are refused">>>>
    ELSE IF exc # "" THEN <<<<exc # "Hang" /\ ~ MustSplit(box, First(ab), e.n), "C14", "a divisible search is distributed, not refused: " \o exc>>>>
    ELSE << <<Len(parts) = e.n, "C14", "as many parts as asked for">>,
            <<\A i \in 1..Len(parts) : Shape(parts[i]) = Shape(ab), "C14", "every part has the original's polynomials">>,
            <<(\A i \in 1..Len(parts) : Shape(parts[i]) = Shape(ab)) => Partition([i \in 1..Len(parts) |-> Flat(parts[i])], box), "C14",
              "the parts are non-empty, disjoint and together the original">> >>
SplitEv(e) == Splits(e, <<e.a, e.b>>, e.exc, e.parts)
Base(vals) == LET p == Unquote(Val(vals, "hashtable_file")) IN <<DirOf(p), St!BaseOf(FileOf(p))>>
Dist(e) ==
    LET s == Splits(e, <<e.a, e.b>>, e.exc, [i \in 1..Len(e.parts) |-> <<e.parts[i].a, e.parts[i].b>>])
        n == Len(e.parts)
    IN IF e.exc # "" \/ MustRefuse(Flat(<<e.a, e.b>>), e.n) THEN s
       ELSE << <<\A i \in 1..n : e.parts[i].exc = "", "C14", "every part is a loadable configuration">> >> \o
            (IF \E i \in 1..n : e.parts[i].exc # "" THEN <<>> ELSE s \o
             << <<\A i \in 1..n : \A k \in Settings \ {"hashtable_file", "a_coeffs_range", "b_coeffs_range"} : Val(e.parts[i].vals, k) = Val(e.vals, k),
                  "C14", "every part keeps the other settings">>,
                <<Cardinality({Base(e.parts[i].vals) : i \in 1..n}) = n /\ (n > 1 => Base(e.vals) \notin {Base(e.parts[i].vals) : i \in 1..n}),
                  "C14", "every part has a table file of its own">>,
                <<e.same, "C14", "the original configuration is unchanged">> >>)
Clauses(e) == CASE e.op = "parse" -> Parse(e) [] e.op = "written" -> Written(e)
                [] e.op = "split" -> SplitEv(e) [] e.op = "dist" -> Dist(e)
Init == l = 1 /\ tick = 0
Next == l <= Len(Trace) /\ Report(l, Failed(Clauses(E))) /\ l' = l + 1 /\ tick' = 1 - tick
Spec == Init /\ [][Next]_<<l, tick>>
==============================================================================
