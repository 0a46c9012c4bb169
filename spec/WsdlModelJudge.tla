--------------------------- MODULE WsdlModelJudge --------------------------
(* Judges what the real library tells of definitions: [def, obs].            *)
EXTENDS WsdlModel, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.OBS)
VARIABLES l, judged
Init == l \in 1..Len(Log) /\ judged = FALSE
Collected(s) == RangeOf(s)
Seen(o) == [name |-> o.name, tns |-> o.tns, imports |-> Collected(o.imports), types |-> o.types, msgs |-> Collected(o.msgs),
            pts |-> Collected(o.pts), binds |-> Collected(o.binds)]
Verdict(line) ==
  LET o == line.obs
      bad(why) == [line |-> l, ok |-> FALSE, why |-> why]
      want == Model(line.def)
  IN IF Refused(line.def) THEN (IF o.st = "ok" THEN bad("accepted") ELSE [line |-> l, ok |-> TRUE])
     ELSE IF o.st # "ok" THEN bad(o.st)
     ELSE LET got == Seen(o.model)
              odd == {f \in DOMAIN want : want[f] # got[f]}
          IN IF odd = {} THEN [line |-> l, ok |-> TRUE] ELSE bad(odd)
Next == /\ ~judged /\ judged' = TRUE /\ UNCHANGED l
        /\ PrintT("@@" \o ToJson(Verdict(Log[l])))
=============================================================================
