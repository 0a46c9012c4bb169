----------------------------- MODULE NotesJudge ----------------------------
(* Judges the comments of generated code: every line of the log is           *)
(* [doc, obs], obs.notes the words of comments in front of each definition,  *)
(* member and variant (path, name, mem), and at the end of the file.         *)
EXTENDS XsdNotes, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.OBS)
VARIABLES l, judged
Init == l \in 1..Len(Log) /\ judged = FALSE

EndsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
Has(s, t) == \E i \in 0..(Len(s) - Len(t)) : SubSeq(s, i + 1, i + Len(t)) = t
IsMark(w) == Len(w) > 2 /\ Ch(w, 1) = "@" /\ Ch(w, 2) = "d"
Marks(s) == SelectSeq(s, IsMark)

Missing(line) ==
  LET notes == Notes(line.doc)
      found == Range(line.obs.notes)
  IN {n \in Range(notes) : n.doc # <<>> /\ ~ \E o \in found :
        o.path = n.path /\ o.name = n.name /\ o.mem = n.mem /\ EndsWith(o.words, n.doc)}
     \cup
     {[alias |-> a] : a \in {b \in AliasDocs(line.doc) : ~ \E o \in found : Has(o.words, b)}}

(* What is said elsewhere: only about elements and attributes without        *)
(* definition; nothing is said twice.                                        *)
Misplaced(line) ==
  LET notes   == Range(Notes(line.doc))
      aliases == UNION {Range(Marks(a)) : a \in AliasDocs(line.doc)}
      Own(o)  == {n \in notes : n.path = o.path /\ n.name = o.name /\ n.mem = o.mem}
  IN {o \in Range(line.obs.notes) :
        LET before == SelectSeq(Marks(o.words), LAMBDA w : w \notin aliases) IN
        ~ \E n \in Own(o) \cup {Note(<<>>, "", "", <<>>)} : before = Marks(n.doc)}

Verdict(line) ==
  IF line.obs.st # "ok" THEN [line |-> l, ok |-> FALSE, why |-> line.obs.st, missing |-> {}, extra |-> {}]
  ELSE LET m == Missing(line)
           x == Misplaced(line)
       IN IF m = {} /\ x = {} THEN [line |-> l, ok |-> TRUE]
          ELSE [line |-> l, ok |-> FALSE, why |-> "comments", missing |-> m, extra |-> x]

Judge == /\ ~judged
         /\ judged' = TRUE
         /\ UNCHANGED l
         /\ PrintT("@@" \o ToJson(Verdict(Log[l])))
Next == Judge
=============================================================================
