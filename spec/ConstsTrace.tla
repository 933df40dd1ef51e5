----------------------------- MODULE ConstsTrace -----------------------------
(* Recorded requests for target constants are behaviours of Consts.                *)
EXTENDS TraceBase, Consts
VARIABLES l, dps
E == Trace[l]
Step(e) ==
    CASE e.op = "start" -> [dps |-> e.dps, cs |-> <<>>]
      [] e.op = "set" -> [dps |-> e.prec, cs |-> <<>>]
      [] e.op = "get" ->
         LET p == After(dps, e.prec)
             who == e.name \o (IF HasIndex(e.name) THEN " " \o ToString(e.i) ELSE "")
         IN [dps |-> e.dps, cs |->
             IF ~ Exists(e.name, e.i) THEN <<<<e.exc # "", "C18", "there is no " \o who>>>>
             ELSE IF e.exc # "" THEN <<<<FALSE, "C18", "asking for " \o who \o " raises " \o e.exc>>>>
             ELSE <<<<e.dps = p, "C18", IF e.prec = 0 THEN "no precision is named: it stays" ELSE "the precision named becomes the working precision">>,
                    <<IsFin(e.val) /\ MayReturn(e.name, e.i, p, RatOf(e.val)), "C18", "the digits of " \o who>> >>]
Init == l = 1 /\ dps = 15
Next == /\ l <= Len(Trace)
        /\ LET r == Step(E) IN Report(l, Failed(r.cs)) /\ dps' = r.dps
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, dps>>
==============================================================================
