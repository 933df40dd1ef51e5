-------------------------------- MODULE StoreMC --------------------------------
(* Overlapping runs on one table, failing anywhere, among similarly named files.    *)
(* A run resolves its file when it reads the configuration, works, writes aside,     *)
(* and takes the next free version in one step.  Aside = FALSE is the protocol that  *)
(* writes in place: the properties then fail.                                       *)
EXTENDS Store, Json
CONSTANTS MaxRuns, Runners, Aside
VARIABLES dir, run, ever, count, log
vars == <<dir, run, ever, count, log>>
view == <<dir, run, ever, count>>
Base == "T"
Foreign == {"T_v9.txt", "T_vx.pkl", "XT_v8.pkl", "T_v7.pkl.bak", "T_v2_old.pkl", "t_v6.pkl", "T_part00_v9.pkl"}
Idle == [op |-> "idle", file |-> "", from |-> 0, at |-> ""]
\* a content: the number of the run that wrote it, the content it extends, whether it is whole
Whole(id, from) == [id |-> id, from |-> from, whole |-> TRUE]
Files == DOMAIN dir
Init == /\ \E f \in SUBSET {"T.pkl", "T_v1.pkl", "T_v3.pkl", "T_v10.pkl"} :
              /\ dir = [x \in f \cup Foreign |-> Whole(0, 0)]
              /\ log = <<[ev |-> "dir", files |-> SetToSeq(f), r |-> 0, op |-> ""]>>
        /\ run = [r \in 1..Runners |-> Idle] /\ ever = dir /\ count = 0
L(ev, r, op) == log' = Append(log, [ev |-> ev, files |-> <<>>, r |-> r, op |-> op])
Start(r, op) ==
    /\ run[r].op = "idle" /\ count < MaxRuns /\ count' = count + 1
    /\ \E f \in Resolve(op, "T", Files) :
         IF op # "generate" /\ f \notin Files THEN run' = run       \* nothing to read: it fails
         ELSE run' = [run EXCEPT ![r] = [op |-> op, file |-> f, from |-> IF op = "generate" THEN 0 ELSE dir[f].id,
                                         at |-> IF op = "use" THEN "done" ELSE "build"]]
    /\ UNCHANGED <<dir, ever>> /\ L("start", r, op)
Tmp(r) == "T.pkl.tmp" \o ToString(r)
Put(f, c) == dir' = [x \in Files \cup {f} |-> IF x = f THEN c ELSE dir[x]]
\* the name the version is stored under: beyond the one read, never an existing one
RECURSIVE Free(_)
Free(v) == IF VName(Base, v) \in Files THEN Free(v + 1) ELSE VName(Base, v)
Target(r) == IF Aside THEN Free(IF run[r].op = "expand" THEN VersionOf(Base, run[r].file) + 1 ELSE VersionOf(Base, run[r].file))
             ELSE IF run[r].op = "expand" THEN VName(Base, VersionOf(Base, run[r].file) + 1) ELSE run[r].file
Begin(r) == /\ run[r].at = "build"
            /\ Put(IF Aside THEN Tmp(r) ELSE Target(r), [id |-> r, from |-> run[r].from, whole |-> FALSE])
            /\ run' = [run EXCEPT ![r].at = "saving"] /\ UNCHANGED <<ever, count>> /\ L("begin", r, "")
Finish(r) == /\ run[r].at = "saving"
             /\ LET f == Target(r) c == Whole(count * 10 + r, run[r].from)
                IN /\ dir' = [x \in (Files \cup {f}) \ {Tmp(r)} |-> IF x = f THEN c ELSE dir[x]]
                   /\ ever' = [x \in DOMAIN ever \cup {f} |-> IF x \in DOMAIN ever THEN ever[x] ELSE c]
             /\ run' = [run EXCEPT ![r] = Idle] /\ UNCHANGED count /\ L("save", r, "")
Done(r) == run[r].at = "done" /\ run' = [run EXCEPT ![r] = Idle] /\ UNCHANGED <<dir, ever, count>> /\ L("done", r, "")
Fail(r) == run[r].op # "idle" /\ run' = [run EXCEPT ![r] = Idle] /\ UNCHANGED <<dir, ever, count>> /\ L("fail", r, run[r].at)
Next == \E r \in 1..Runners : (\E op \in {"generate", "expand", "use"} : Start(r, op)) \/ Begin(r) \/ Finish(r) \/ Done(r) \/ Fail(r)
Spec == Init /\ [][Next]_vars
NothingOverwritten == \A f \in DOMAIN ever : f \in Files /\ dir[f] = ever[f]
NeverPartial == \A f \in Newest(Base, Files) : dir[f].whole
ForeignIgnored == \A op \in {"generate", "expand", "use"} : Resolve(op, "T", Files) \cap Foreign = {}
NewVersionNewer == [][\A f \in Versions(Base, DOMAIN dir') \ Files : VersionOf(Base, f) > NewestNumber(Base, Files)]_vars
ReadsNewest == [][\A r \in 1..Runners : run[r].op = "idle" /\ run'[r].op \in {"use", "expand"} =>
                     \A f \in Versions(Base, Files) : VersionOf(Base, f) <= VersionOf(Base, run'[r].file)]_vars
Emit == (\A r \in 1..Runners : run'[r].op = "idle") => PrintT("TEST " \o ToJson(log'))
==============================================================================
