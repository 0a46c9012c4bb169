------------------------------ MODULE XsdScope -----------------------------
(* A complete family of documents: the states are the documents of the      *)
(* family; every property is checked on every one, and each document of the *)
(* domain is emitted, to be replayed on the real code.                      *)
EXTENDS XsdProps, Json, IOUtils
VARIABLES doc, seen
FAMILY == IOEnv.FAMILY
Init == doc \in Family(FAMILY) /\ seen = FALSE
Next == ~seen /\ seen' = TRUE /\ UNCHANGED doc
Check == seen => LET items == Items(doc) IN
  InDomain(doc, items) => /\ AllProps(doc, items)
                          /\ PrintT("@@" \o ToJson(doc))
=============================================================================
