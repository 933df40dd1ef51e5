------------------------------ MODULE StoreTrace ------------------------------
(* Real directories of tables under real runs: the directory after every step of   *)
(* every run.  A file is <<name, digest, content>>; a content is the sequence of    *)
(* the constants enumerated by the runs that made it (run i: 2i, 2i+1), <<-1>> if   *)
(* it cannot be loaded.                                                            *)
EXTENDS TraceBase, Store
VARIABLES l, base, files, runs, skip
vars == <<l, base, files, runs, skip>>
E == Trace[l]
Names(fs) == {fs[i][1] : i \in 1..Len(fs)}
File(fs, n) == fs[CHOOSE i \in 1..Len(fs) : fs[i][1] = n]
Scratch(n) == EndsIn(n, ".tmp")
Own(id) == {2 * id, 2 * id + 1}
Now(fs) == LET n == Newest(base, Names(fs)) IN IF n = {} THEN {} ELSE Range(File(fs, CHOOSE f \in n : TRUE)[3])
None == [kind |-> "none", id |-> 0, from |-> {}, exists |-> FALSE, told |-> 0]
\* the files after one step of run r (which goes on, ends, or has failed)
Kept(before, after) == \A i \in 1..Len(before) : Scratch(before[i][1]) \/
                          (before[i][1] \in Names(after) /\ File(after, before[i][1])[2] = before[i][2])
Step(run, before, e) ==
    LET new == {n \in Names(e.files) \ Names(before) : ~ Scratch(n)}
        vs == Versions(base, new)
        want == (IF run.kind = "expand" THEN run.from ELSE {}) \cup Own(run.id)
        writes == run.kind \in {"generate", "expand"}
    IN << <<Kept(before, e.files), "C15", "an existing file is changed or removed">>,
          <<new \subseteq vs, "C15", "a file that is not a version appears">>,
          <<Cardinality(vs) <= (IF writes /\ e.over THEN 1 ELSE 0), "C15", "a version appears that no run has stored">>,
          <<\A v \in vs : VersionOf(base, v) > NewestNumber(base, Names(before)), "C15", "the version written is newer than all existing ones">>,
          <<\A v \in vs : LET c == File(e.files, v)[3] IN Range(c) = want /\ Len(c) = Cardinality(want), "C15",
            IF e.ok THEN "the version written is what the run was to store, from the newest version" ELSE "a failed run leaves a partial version behind">>,
          <<(e.over /\ e.ok /\ writes /\ (run.kind = "generate" \/ run.exists)) => vs # {}, "C15", "a finished run has stored its version">>,
          <<(e.loaded # <<>> /\ run.kind \in {"use", "expand"}) => Range(e.loaded) = run.from, "C15", "the newest version is read">> >>
DirEv(e) == <<>>
StartRun(e) == [kind |-> e.kind, id |-> e.id, from |-> Now(files), exists |-> Versions(base, Names(files)) # {}, told |-> 0]
Clauses(e) ==
    CASE e.op = "dir" -> <<>>
      [] e.op = "start" -> Step(StartRun(e), files, e)
      [] e.op = "step" -> Step(runs[e.r], files, e)
Init == l = 1 /\ base = "" /\ files = <<>> /\ runs = [r \in 1..2 |-> None] /\ skip = ""
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF E.op = "dir" THEN base' = E.base /\ files' = E.files /\ runs' = [r \in 1..2 |-> None] /\ UNCHANGED skip
           ELSE IF E.case = skip THEN UNCHANGED <<base, files, runs, skip>>
           ELSE LET bad == Failed(Clauses(E))
                IN /\ Report(l, bad) /\ skip' = IF bad # <<>> THEN E.case ELSE skip
                   /\ UNCHANGED base /\ files' = E.files
                   /\ runs' = IF E.op = "start" THEN [runs EXCEPT ![E.r] = StartRun(E)] ELSE runs
Spec == Init /\ [][Next]_vars
==============================================================================
