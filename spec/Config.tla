-------------------------------- MODULE Config --------------------------------
(* What a configuration file means (configfile.py): every setting's notation      *)
(* denotes one value or is refused; optional settings have defaults.              *)
EXTENDS Text
Kind == [const |-> "text", ab_polys_type |-> "poly", ab_polys_special_params |-> "json",
         print_surprising_nonexp_contfracs |-> "bool", gen_hashtable_only |-> "text", a_coeffs_range |-> "json",
         b_coeffs_range |-> "json", lhs_type |-> "lhs", lhs_params |-> "json", postproc_funcs_filter |-> "funcs",
         i |-> "int", hashtable_file_operation |-> "text", validate_hashtable_extend_no_replication |-> "bool",
         hashtable_file |-> "path", hashtable_num_of_iterations |-> "int", hashtable_precision |-> "int",
         first_filtering_num_of_iterations |-> "int", first_filtering_precision |-> "int",
         second_filtering_max_num_of_iterations |-> "int", second_filtering_precision |-> "int",
         third_filtering_max_num_of_iterations |-> "int", third_filtering_precision |-> "int", is_test |-> "bool"]
Settings == DOMAIN Kind
Default(k) == IF k = "i" THEN "i0" ELSE IF k = "is_test" THEN "b0"
              ELSE IF k = "validate_hashtable_extend_no_replication" THEN "b1" ELSE "n"
PolyKinds == {"normal", "indexed", "sparse"}
LhsKinds == {"ulcd", "rationalfunc"}
Operations == {"generate", "expand", "use"}
\* the selectable functions, in their stable order
Funcs == <<"lambda x: x", "safe_inverse", "lambda x: x**2", "lambda x: safe_inverse(x**2)", "lambda x: x**3",
           "lambda x: safe_inverse(x**3)", "lambda x: x**4", "lambda x: safe_inverse(x**4)", "lambda x: x**5",
           "lambda x: safe_inverse(x**5)", "safe_sqrt", "lambda x: safe_inverse(safe_sqrt(x))",
           "lambda x: dec_sin(x)", "lambda x: safe_inverse(dec_sin(x))", "lambda x: dec_cos(x)",
           "lambda x: safe_inverse(dec_cos(x))", "lambda x: dec_tan(x)", "lambda x: safe_inverse(dec_tan(x))",
           "lambda x: dec_cot(x)", "lambda x: safe_inverse(dec_cot(x))", "lambda x: dec_exp(x)",
           "lambda x: safe_inverse(dec_exp(x))", "lambda x: dec_ln(x)", "lambda x: safe_inverse(dec_ln(x))">>
FuncIndex == [f \in {Funcs[j] : j \in 1..Len(Funcs)} |-> (CHOOSE j \in 1..Len(Funcs) : Funcs[j] = f) - 1]
Word(s) == LET w == Lower(Strip(s)) IN
           IF w = "none" THEN "n" ELSE IF w = "true" THEN "b1" ELSE IF w = "false" THEN "b0" ELSE "s\"" \o w \o "\""
FuncIndices(s) ==
    LET c == Json(s) IN
    IF c = "[]" THEN "[]"
    ELSE IF c = "ERR" \/ Len(c) < 2 \/ At(c, 1) # "[" THEN "ERR"
    ELSE LET it == Items(c)
             name(x) == IF Len(x) >= 3 /\ At(x, 1) = "s" THEN SubSeq(x, 3, Len(x) - 1) ELSE ""
         IN IF \E j \in 1..Len(it) : name(it[j]) \notin DOMAIN FuncIndex THEN "ERR"
            ELSE "[" \o Join([j \in 1..Len(it) |-> "i" \o ToString(FuncIndex[name(it[j])])], ",") \o "]"
Denote(k, raw) ==
    LET s == Strip(raw)
        w == Lower(s)
    IN IF k \notin Settings THEN
           (IF IsIntText(w) THEN "i" \o Norm(w) ELSE IF Json(w) # "ERR" /\ At(w, 1) = "[" THEN Json(w) ELSE Word(s))
       ELSE IF w = "none" THEN "n"
       ELSE CASE Kind[k] = "text" -> Word(s)
              [] Kind[k] = "poly" -> IF w \in PolyKinds THEN "p:" \o w ELSE "ERR"
              [] Kind[k] = "lhs" -> IF w \in LhsKinds THEN "l:" \o w ELSE "ERR"
              [] Kind[k] = "bool" -> IF w = "true" THEN "b1" ELSE IF w = "false" THEN "b0" ELSE "ERR"
              [] Kind[k] = "int" -> IF IsIntText(s) THEN "i" \o Norm(s) ELSE "ERR"
              [] Kind[k] = "json" -> Json(s)
              [] Kind[k] = "funcs" -> FuncIndices(s)
              [] Kind[k] = "path" -> "s\"" \o s \o "\""
\* pairs: the file's settings, <<name, raw text>>; each name once
Raw(pairs, k) == LET js == {j \in 1..Len(pairs) : pairs[j][1] = k} IN IF js = {} THEN <<>> ELSE <<pairs[CHOOSE j \in js : TRUE][2]>>
Meaning(pairs, k) == LET r == Raw(pairs, k) IN IF r = <<>> THEN Default(k) ELSE Denote(k, r[1])
Op(pairs) == Meaning(pairs, "hashtable_file_operation")
Quote(s) == "s\"" \o s \o "\""
Resolved(pairs, k) ==
    LET v == Meaning(pairs, k) IN
    IF k = "gen_hashtable_only" /\ v = Quote("auto") THEN (IF Op(pairs) = Quote("use") THEN "b0" ELSE "b1") ELSE v
Refused(pairs) ==
    \/ \E j \in 1..Len(pairs) : Denote(pairs[j][1], pairs[j][2]) = "ERR"
    \/ Op(pairs) \notin {Quote(o) : o \in Operations}
    \/ Meaning(pairs, "hashtable_file") = "n"
    \/ Meaning(pairs, "postproc_funcs_filter") = "n"

(* writing: a notation that denotes the value again *)
RECURSIVE Plain(_, _)
\* canonical -> JSON
Plain(c, i) == IF i > Len(c) THEN ""
               ELSE IF At(c, i) = "i" THEN Plain(c, i + 1)
               ELSE IF At(c, i) = "s" THEN LET j == FindChar(c, i + 2, "\"") IN SubSeq(c, i + 1, j) \o Plain(c, j + 1)
               ELSE IF At(c, i) = "b" THEN (IF At(c, i + 1) = "1" THEN "true" ELSE "false") \o Plain(c, i + 2)
               ELSE IF At(c, i) = "n" THEN "null" \o Plain(c, i + 1)
               ELSE At(c, i) \o Plain(c, i + 1)
Write(k, c) ==
    IF c = "n" THEN "None"
    ELSE CASE Kind[k] \in {"text", "path"} -> IF c = "b1" THEN "True" ELSE IF c = "b0" THEN "False" ELSE SubSeq(c, 3, Len(c) - 1)
           [] Kind[k] \in {"poly", "lhs"} -> SubSeq(c, 3, Len(c))
           [] Kind[k] = "bool" -> IF c = "b1" THEN "True" ELSE "False"
           [] Kind[k] = "int" -> SubSeq(c, 2, Len(c))
           [] Kind[k] = "json" -> Plain(c, 1)
           [] Kind[k] = "funcs" -> IF c = "[]" THEN "[]"
                                  ELSE LET it == Items(c) IN
                                  "[" \o Join([j \in 1..Len(it) |-> "\"" \o Funcs[BToInt(SubSeq(it[j], 2, Len(it[j]))) + 1] \o "\""], ", ") \o "]"
==============================================================================
