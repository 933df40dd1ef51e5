------------------------------- MODULE ConfigMC -------------------------------
(* Every setting in every notation of a list: what is denoted can be written and   *)
(* read again, notation (case, blanks) does not change a value, and one test per    *)
(* (setting, notation) is emitted for the real parser.                            *)
EXTENDS Config
J == INSTANCE Json
CONSTANTS Thorough
VARIABLES k, raw
vars == <<k, raw>>
Ints == {"0", "7", "-3", "+12", "007", " 45 ", "1.5", "abc", "", "-", "1 2", "12345678901234567890"}
Texts == {"pi", "PI", " Phi ", "none", "None", "true", "False", "auto", "AUTO", "zeta", "generate", "Use", "expand ", "frobnicate"}
Bools == {"true", "True", "FALSE", "false", "yes", "1", "none", "truee"}
Lists == {"[]", "[1]", "[[1,2],[3,4]]", "[ [ [ -1 , 2 ] ] ]", "[[[1, 2], [3, 4]], [[5,6]]]", "[1, 2", "1, 2]", "[1,,2]",
          "[1 2]", "none", "None", "[true, false, null]", "5", "[01]", "[[-0, 3]]", "abc", "[[1,2],[3,4]], 1", "[1,]", "[[[0, 3], [2, 3]], [[-1, 2]], false]"}
Polys == {"normal", "Sparse", "INDEXED", "none", "cubic", " normal", "normals"}
Lhss == {"ulcd", "ULCD", "RationalFunc", "rationalfunc ", "ulc", "none"}
Fns == {"[]", "[\"lambda x: x\"]", "[\"safe_inverse\", \"lambda x: x**2\"]", "[\"lambda x: safe_inverse(dec_ln(x))\"]",
        "[\"safe_sqrt\",\"lambda x: safe_inverse(safe_sqrt(x))\"]", "[\"lambda x: x**6\"]", "[\"safe_inverse\", \"\"]",
        "[\"lambda x: x\", \"lambda x: x\"]", "[0, 1]", "[\"lambda x:x\"]", "[\"SAFE_INVERSE\"]"} \cup
       {"[\"" \o Funcs[j] \o "\"]" : j \in 1..Len(Funcs)}
Paths == {"table", "Table_X.pkl", " sub/Mixed_Case.pkl", "sub/deep/t_v3.pkl"}
Raws(x) == CASE Kind[x] = "text" -> Texts [] Kind[x] = "bool" -> Bools [] Kind[x] = "int" -> Ints [] Kind[x] = "json" -> Lists
             [] Kind[x] = "poly" -> Polys [] Kind[x] = "lhs" -> Lhss [] Kind[x] = "funcs" -> Fns [] Kind[x] = "path" -> Paths
Init == k \in Settings /\ raw \in Raws(k)
\* the same setting in another notation
Next == /\ UNCHANGED k
        /\ \/ raw' = " " \o raw \o " " /\ Len(raw) < 25
           \/ Thorough /\ Kind[k] \notin {"json", "funcs", "path"} /\ raw' = Lower(raw)
           \/ Denote(k, raw) # "ERR" /\ Len(raw) < 200 /\ raw' = Write(k, Denote(k, raw))
Spec == Init /\ [][Next]_vars
Same == [][Denote(k', raw') = Denote(k, raw)]_vars
RoundTrip == Denote(k, raw) # "ERR" => Denote(k, Write(k, Denote(k, raw))) = Denote(k, raw)
KnownFuncs == Kind[k] = "funcs" => \A j \in 1..Len(Funcs) : Denote(k, "[\"" \o Funcs[j] \o "\"]") = "[i" \o ToString(j - 1) \o "]"
Emit == PrintT("TEST " \o J!ToJson([k |-> k, raw |-> raw]))
==============================================================================
