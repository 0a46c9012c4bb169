---------------------------- MODULE CustomJudge ----------------------------
(* Judges what generators with custom parts made: every line of the log is   *)
(* [doc, calls, obs].                                                       *)
EXTENDS XsdCustom, IOUtils

Log == ndJsonDeserialize(IOEnv.OBS)
VARIABLES l, judged
Init == l \in 1..Len(Log) /\ judged = FALSE

OddOf(r) == IF "odd" \in DOMAIN r THEN Range(r.odd) ELSE {}
SetOdd(r) == [x \in DOMAIN r \cup {"odd"} |-> IF x = "odd" THEN OddOf(r) ELSE r[x]]
Norm(i) ==
  IF i.k = "mod" THEN i
  ELSE LET j == [SetOdd(i) EXCEPT !.derives = Range(@), !.impls = Range(@)] IN
       CASE i.k = "struct" -> [j EXCEPT !.fields = [n \in 1..Len(j.fields) |-> SetOdd(j.fields[n])]]
         [] i.k = "enum"   -> [j EXCEPT !.cases = [n \in 1..Len(j.cases) |-> SetOdd(j.cases[n])]]
         [] OTHER -> j

Verdict(line) ==
  IF line.obs.st # "ok" THEN [line |-> l, ok |-> FALSE, why |-> line.obs.st, missing |-> {}, extra |-> {}]
  ELSE LET b == Built(line.calls)
           e == CustomItems(b, line.doc)
           g == {Norm(i) : i \in Range(line.obs.items)}
           o == Range(line.obs.other)
           c == CommentsMissing(b, line.doc, line.obs.notes)
       IN IF e = g /\ o = Others(b, line.doc) /\ c = {} THEN [line |-> l, ok |-> TRUE]
          ELSE [line |-> l, ok |-> FALSE, why |-> IF e # g THEN "items" ELSE IF c # {} THEN "comments" ELSE "others",
                missing |-> (e \ g) \cup {[other |-> x] : x \in Others(b, line.doc) \ o} \cup {[comment |-> x] : x \in c},
                extra |-> (g \ e) \cup {[other |-> x] : x \in o \ Others(b, line.doc)}]

Judge == /\ ~judged
         /\ judged' = TRUE
         /\ UNCHANGED l
         /\ PrintT("@@" \o ToJson(Verdict(Log[l])))
Next == Judge
=============================================================================
