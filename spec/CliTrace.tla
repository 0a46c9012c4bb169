------------------------------ MODULE CliTrace ------------------------------
(* Recorded behaviours of the tools: each line is [tool, steps], a step has    *)
(* the action and the tree observed after it (files as [p, c], directories),  *)
(* exit status and outputs.  Every step has to be one the specification       *)
(* allows from the tree observed before.                                     *)
EXTENDS Cli, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.OBS)
FsOf(s) == [p \in {s.files[i].p : i \in 1..Len(s.files)} |-> s.files[CHOOSE i \in 1..Len(s.files) : s.files[i].p = p].c]
State(s) == [fs |-> FsOf(s), dirs |-> {s.dirs[i] : i \in 1..Len(s.dirs)}, exit |-> s.exit, stdout |-> s.stdout, stderr |-> s.stderr]
VARIABLES l, k, v
Empty == [fs |-> [p \in {} |-> <<>>], dirs |-> {<<>>}]
Init == l \in 1..Len(Log) /\ k = 0 /\ v = "ok"
Before == IF k = 0 THEN Empty ELSE State(Log[l].steps[k])
Next == /\ v = "ok" /\ k < Len(Log[l].steps)
        /\ k' = k + 1 /\ UNCHANGED l
        /\ v' = IF Allowed(Log[l].tool, Before, Log[l].steps[k + 1].act, State(Log[l].steps[k + 1])) THEN "ok" ELSE "bad"
        /\ (v' = "bad" \/ k' = Len(Log[l].steps)) => PrintT("@@" \o ToJson([line |-> l, step |-> k', ok |-> v' = "ok"]))
=============================================================================
