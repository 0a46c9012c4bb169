----------------------------- MODULE XsdJudge ------------------------------
(* Judges recorded conversions.  Every line of the log is [doc, obs]: an     *)
(* abstract schema document, and what the real generator made of its text.  *)
(* Whether the record is a step of the specification is asked for one       *)
(* property (PROP) at a time: the views of what the document means and of   *)
(* what was generated have to be equal.                                     *)
EXTENDS XsdDomain, Json, IOUtils

Log  == ndJsonDeserialize(IOEnv.OBS)
PROP == IOEnv.PROP

VARIABLES l, judged
Init == l \in 1..Len(Log) /\ judged = FALSE

AsSet(s) == Range(s)
NormItem(i) == IF i.k = "mod" THEN i
               ELSE [i EXCEPT !.derives = AsSet(@), !.impls = AsSet(@)]
Observed(line) == [n \in 1..Len(line.obs.items) |-> NormItem(line.obs.items[n])]

Expected(line) == View(PROP, line.doc, Items(line.doc))
Got(line)      == View(PROP, line.doc, Observed(line))

(* Only whole documents have nothing missing (not extracts, nor files that   *)
(* include others).                                                          *)
Extra(line) == IF PROP = "nest" /\ ~line.partial THEN Dangling(line.doc, Observed(line), line.obs.uses) ELSE {}

Verdict(line) ==
  IF line.obs.st # "ok" THEN [line |-> l, ok |-> FALSE, why |-> line.obs.st, missing |-> {}, extra |-> {}]
  ELSE LET e == Expected(line)
           g == Got(line)
           x == Extra(line)
       IN IF e = g /\ x = {} THEN [line |-> l, ok |-> TRUE]
          ELSE [line |-> l, ok |-> FALSE, why |-> IF e = g THEN "dangling" ELSE "view", missing |-> e \ g, extra |-> (g \ e) \cup x]

Judge == /\ ~judged
         /\ judged' = TRUE
         /\ UNCHANGED l
         /\ PrintT("@@" \o ToJson(Verdict(Log[l])))
Next == Judge
=============================================================================
