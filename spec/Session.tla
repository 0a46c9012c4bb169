------------------------------ MODULE Session ------------------------------
(* One process that parses documents and generates code, in any order.      *)
(* Code(t) is what a fresh process makes of text t; whatever happened        *)
(* before, every call gives just that.                                      *)
EXTENDS Naturals, Sequences

CONSTANT Texts,        \* number of texts
         MaxFiles, MaxGens
VARIABLES kind,        \* kind[t]: "xsd", "wsdl" or "bad" (not well-formed)
          files,       \* files[f]: the text file f was parsed from, 0 if parsing failed
          gens         \* gens[g]: the text generator g was last used on, 0 if none
vars == <<kind, files, gens>>

(* The result of a call: an error, or the code of a text.                   *)
Err == 0
None == 0 - 1          \* the call returns nothing that is looked at

TypeOK == /\ \A f \in 1..Len(files) : files[f] \in 0..Texts
          /\ \A g \in 1..Len(gens) : gens[g] \in 0..Texts

SInit == /\ files = <<>> /\ gens = <<>>

Parse(t, r) ==
  /\ kind[t] \in {"xsd", "bad"} /\ Len(files) < MaxFiles
  /\ r = IF kind[t] = "bad" THEN Err ELSE None
  /\ files' = Append(files, IF kind[t] = "bad" THEN 0 ELSE t)
  /\ UNCHANGED <<kind, gens>>
Clone(f, r) ==
  /\ f \in 1..Len(files) /\ Len(files) < MaxFiles /\ files[f] # 0 /\ r = None
  /\ files' = Append(files, files[f])
  /\ UNCHANGED <<kind, gens>>
New(r) == /\ Len(gens) < MaxGens /\ r = None
          /\ gens' = Append(gens, 0)
          /\ UNCHANGED <<kind, files>>
Gen(g, f, r) ==
  /\ g \in 1..Len(gens) /\ f \in 1..Len(files) /\ files[f] # 0
  /\ r = files[f]
  /\ gens' = [gens EXCEPT ![g] = files[f]]
  /\ UNCHANGED <<kind, files>>
(* Definition by definition, with a generator that knows the namespaces.    *)
Entities(g, f, r) ==
  /\ g \in 1..Len(gens) /\ f \in 1..Len(files) /\ files[f] # 0
  /\ gens[g] = files[f]
  /\ r = files[f]
  /\ UNCHANGED vars
Wsdl(t, r) ==
  /\ kind[t] = "wsdl" /\ r = t
  /\ UNCHANGED vars

Step(op, r) ==
  CASE op.a = "parse"  -> Parse(op.t, r)
    [] op.a = "clone"  -> Clone(op.f, r)
    [] op.a = "new"    -> New(r)
    [] op.a = "gen"    -> Gen(op.g, op.f, r)
    [] op.a = "entity" -> Entities(op.g, op.f, r)
    [] op.a = "wsdl"   -> Wsdl(op.t, r)

Ops == [a : {"parse", "wsdl"}, t : 1..Texts] \cup [a : {"clone"}, f : 1..MaxFiles] \cup [a : {"new"}]
       \cup [a : {"gen", "entity"}, g : 1..MaxGens, f : 1..MaxFiles]
Results == (0 - 1)..Texts
=============================================================================
