--------------------------------- MODULE Text ---------------------------------
(* Text as configuration files and exports use it: stripping, case, integers and  *)
(* nested lists.  A parsed value is a canonical text: i5, s"abc", b0, n,           *)
(* [i1,i2]; "ERR" when the text denotes nothing.                                  *)
EXTENDS Integers, Sequences, SequencesExt, TLC, BigNum
At(s, i) == SubSeq(s, i, i)
Spaces == {" ", "\t", "\n", "\r"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE LStrip(_)
LStrip(s) == IF Len(s) > 0 /\ At(s, 1) \in Spaces THEN LStrip(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE RStrip(_)
RStrip(s) == IF Len(s) > 0 /\ At(s, Len(s)) \in Spaces THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == LStrip(RStrip(s))
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerOf == "abcdefghijklmnopqrstuvwxyz"
LowMap == [c \in {At(Upper, i) : i \in 1..26} |-> At(LowerOf, CHOOSE i \in 1..26 : At(Upper, i) = c)]
UpperSet == DOMAIN LowMap
LowChar(c) == IF c \in UpperSet THEN LowMap[c] ELSE c
Concat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, "", ss)
Lower(s) == Concat([i \in 1..Len(s) |-> LowChar(At(s, i))])
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : At(s, i) \in Digits
IsIntText(s) == AllDigits(s) \/ (Len(s) > 1 /\ At(s, 1) \in {"+", "-"} /\ AllDigits(SubSeq(s, 2, Len(s))))
\* the integer's normal form
Norm(s) == BAdd(IF At(s, 1) = "+" THEN SubSeq(s, 2, Len(s)) ELSE s, "0")
StartsWith(s, i, w) == i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w
EndsIn(s, w) == Len(s) >= Len(w) /\ SubSeq(s, Len(s) - Len(w) + 1, Len(s)) = w
\* the first position >= i not in the set
RECURSIVE SkipSet(_, _, _)
SkipSet(s, i, set) == IF i <= Len(s) /\ At(s, i) \in set THEN SkipSet(s, i + 1, set) ELSE i
RECURSIVE FindChar(_, _, _)
FindChar(s, i, c) == IF i > Len(s) THEN 0 ELSE IF At(s, i) = c THEN i ELSE FindChar(s, i + 1, c)

(* JSON values: <<canonical, next position>>, position 0 when malformed *)
Bad == <<"ERR", 0>>
RECURSIVE JVal(_, _)
RECURSIVE JItems(_, _, _)
JItems(s, i, acc) == \* after "[" or ","
    LET v == JVal(s, i) IN
    IF v[2] = 0 THEN Bad
    ELSE LET j == SkipSet(s, v[2], Spaces)
             a == IF acc = "" THEN v[1] ELSE acc \o "," \o v[1]
         IN IF j > Len(s) THEN Bad
            ELSE IF At(s, j) = "," THEN JItems(s, j + 1, a)
            ELSE IF At(s, j) = "]" THEN <<"[" \o a \o "]", j + 1>>
            ELSE Bad
JVal(s, i0) ==
    LET i == SkipSet(s, i0, Spaces) IN
    IF i > Len(s) THEN Bad
    ELSE IF At(s, i) = "[" THEN
        LET j == SkipSet(s, i + 1, Spaces)
        IN IF j <= Len(s) /\ At(s, j) = "]" THEN <<"[]", j + 1>> ELSE JItems(s, i + 1, "")
    ELSE IF At(s, i) = "\"" THEN
        LET j == FindChar(s, i + 1, "\"") IN IF j = 0 THEN Bad ELSE <<"s" \o SubSeq(s, i, j), j + 1>>
    ELSE IF StartsWith(s, i, "true") THEN <<"b1", i + 4>>
    ELSE IF StartsWith(s, i, "false") THEN <<"b0", i + 5>>
    ELSE IF StartsWith(s, i, "null") THEN <<"n", i + 4>>
    ELSE LET k == IF At(s, i) = "-" THEN i + 1 ELSE i
             j == SkipSet(s, k, Digits)
             t == SubSeq(s, k, j - 1)
         IN IF ~ AllDigits(t) \/ (Len(t) > 1 /\ At(t, 1) = "0") THEN Bad
            ELSE <<"i" \o BAdd(SubSeq(s, i, j - 1), "0"), j>>
Json(s) == LET v == JVal(s, 1) IN IF v[2] # 0 /\ SkipSet(s, v[2], Spaces) > Len(s) THEN v[1] ELSE "ERR"
\* the items of a canonical list of strings or integers without nesting: "[s"a",s"b"]" is cut at its commas outside quotes
RECURSIVE FlatItems(_, _, _, _)
FlatItems(s, i, from, quoted) ==
    IF i > Len(s) THEN IF from > Len(s) THEN <<>> ELSE <<SubSeq(s, from, Len(s))>>
    ELSE IF At(s, i) = "\"" THEN FlatItems(s, i + 1, from, ~ quoted)
    ELSE IF At(s, i) = "," /\ ~ quoted THEN <<SubSeq(s, from, i - 1)>> \o FlatItems(s, i + 1, i + 1, quoted)
    ELSE FlatItems(s, i + 1, from, quoted)
Items(canon) == FlatItems(SubSeq(canon, 2, Len(canon) - 1), 1, 1, FALSE)
Join(ss, sep) == FoldLeft(LAMBDA acc, x : IF acc = "" THEN x ELSE acc \o sep \o x, "", ss)
==============================================================================
