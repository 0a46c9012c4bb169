------------------------------ MODULE XsdAside -----------------------------
(* What may stand in a component and says nothing about its name, its type  *)
(* or how often it occurs.  Any component may have a field `aside`, a        *)
(* sequence of [n, v]: an XML attribute n of value v, or, when n is the name *)
(* of an identity constraint, an element of that name.  Attributes of        *)
(* another namespace (prefix ann) may be called like those of XML Schema.    *)
(* Nothing in the meaning of a document looks at asides.                     *)
LOCAL INSTANCE Sequences

AForeign == {[n |-> "ann:name", v |-> "other"], [n |-> "ann:type", v |-> "xs:date"], [n |-> "ann:use", v |-> "required"], [n |-> "ann:ref", v |-> "xs:lang"],
                [n |-> "ann:minOccurs", v |-> "0"], [n |-> "ann:maxOccurs", v |-> "unbounded"], [n |-> "ann:base", v |-> "xs:date"], [n |-> "ann:value", v |-> "v"],
                [n |-> "ann:maxOccurs", v |-> "0"], [n |-> "ann:use", v |-> "prohibited"]}
AId == [n |-> "id", v |-> "i-1"]
ADefault(v) == [n |-> "default", v |-> v]
AFixed(v) == [n |-> "fixed", v |-> v]
AConstraints == {[n |-> c, v |-> "c1"] : c \in {"unique", "key"}}
AsidesOf(kind) ==
  AForeign \cup {AId} \cup
  CASE kind = "el"    -> {ADefault("7"), ADefault(""), AFixed("7"), [n |-> "nillable", v |-> "true"], [n |-> "nillable", v |-> "false"], [n |-> "block", v |-> "#all"]} \cup AConstraints
    [] kind = "top"   -> {ADefault("7"), AFixed("7"), [n |-> "nillable", v |-> "true"], [n |-> "abstract", v |-> "true"], [n |-> "abstract", v |-> "false"],
                          [n |-> "substitutionGroup", v |-> "head"], [n |-> "final", v |-> "#all"], [n |-> "block", v |-> "substitution"]} \cup AConstraints
    [] kind \in {"at", "atref", "topat"} -> {ADefault("7"), ADefault(""), AFixed("7")}
    [] kind = "ct"    -> {[n |-> "abstract", v |-> "true"], [n |-> "abstract", v |-> "false"], [n |-> "mixed", v |-> "true"], [n |-> "mixed", v |-> "false"],
                          [n |-> "final", v |-> "extension"], [n |-> "block", v |-> "#all"]}
    [] kind = "st"    -> {[n |-> "final", v |-> "#all"], [n |-> "final", v |-> "list union"]}
    [] kind = "facet" -> {AFixed("true"), AFixed("false")}
    [] OTHER          -> {}
=============================================================================
