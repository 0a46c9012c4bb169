---------------------------- MODULE SessionTrace ---------------------------
(* Recorded sessions, step by step: every recorded call has to be a step of *)
(* the specification with the recorded result.                              *)
EXTENDS Session, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.OBS)
VARIABLES l, i, stuck
Init == /\ SInit /\ stuck = FALSE
        /\ l \in 1..Len(Log) /\ i = 1
        /\ kind = Log[l].kind
Op == Log[l].ops[i]
\* A result is given by the texts whose code it is (two texts may mean the same).
Follows == \E n \in 1..Len(Log[l].res[i]) : Step(Op, Log[l].res[i][n])
Next == /\ ~stuck
        /\ IF i > Len(Log[l].ops)
           THEN /\ stuck' = TRUE /\ UNCHANGED <<vars, l, i>>
                /\ PrintT("@@" \o ToJson([line |-> l, ok |-> TRUE]))
           ELSE \/ Follows /\ i' = i + 1 /\ UNCHANGED <<l, stuck>>
                \/ /\ ~ENABLED Follows
                   /\ stuck' = TRUE /\ UNCHANGED <<vars, l, i>>
                   /\ PrintT("@@" \o ToJson([line |-> l, ok |-> FALSE, at |-> i, op |-> Op, res |-> Log[l].res[i]]))
=============================================================================
