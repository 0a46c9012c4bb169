----------------------------- MODULE XsdInert ------------------------------
(* What must not matter: a document is written plainly and in a number of   *)
(* other styles (layout, comments, annotations with any text, quoting, order *)
(* of XML attributes).  Writing it in another style is a stuttering step:    *)
(* what is generated stays the same, token for token, and stays what the     *)
(* document means.                                                          *)
EXTENDS XsdDomain, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.OBS)
VARIABLES l, n         \* record, and the number of styles looked at
Init == l \in 1..Len(Log) /\ n = 0

NormItem(i) == IF i.k = "mod" THEN i
               ELSE [i EXCEPT !.derives = Range(@), !.impls = Range(@)]
Means(doc, obs) == {NormItem(obs.items[m]) : m \in 1..Len(obs.items)} = Range(Items(doc))

Restyle ==
  /\ n < Len(Log[l].styles)
  /\ n' = n + 1
  /\ UNCHANGED l
  /\ LET line == Log[l]
         s == line.styles[n + 1]
         why == IF s.obs.st # "ok" THEN s.obs.st
                ELSE IF ~Means(line.doc, s.obs) THEN "meaning"
                ELSE IF s.tokens # line.plain THEN "tokens"
                ELSE ""
     IN PrintT("@@" \o ToJson([line |-> l, style |-> n + 1, ok |-> why = "", why |-> why]))
Next == Restyle
=============================================================================
