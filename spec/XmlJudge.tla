----------------------------- MODULE XmlJudge ------------------------------
(* Recorded calls of parse(): [text, st, whole].  The reader goes through    *)
(* the text; when it finds it is not well-formed, the call has to have       *)
(* returned an error.  A whole text (a supported schema) has to be read to    *)
(* the end, and to have been converted.                                     *)
EXTENDS Xml, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.OBS)
VARIABLES l, st
Init == l \in 1..Len(Log) /\ st = Start
Tell(v) ==
  LET r == Log[l].st
      ok == /\ v = "bad" => r = "err"
            /\ Log[l].whole => v = "wf" /\ r = "ok"
  IN PrintT("@@" \o ToJson([line |-> l, ok |-> ok, v |-> v, st |-> r]))
Next == /\ st.v = "go"
        /\ st' = Read(Log[l].text, st)
        /\ UNCHANGED l
        /\ (st'.v # "go" => Tell(st'.v))
(* The reader always moves on.                                              *)
Progress == [][st'.p > st.p \/ st'.v # "go"]_<<l, st>>
=============================================================================
