------------------------------ MODULE WsdlModel ----------------------------
(* What a program that reads a WSDL document through the library is told of  *)
(* it: the model of the document.                                           *)
(*                                                                          *)
(* A document is a record [name, tns, decl, kids]                            *)
(*   name: "" for none; tns: the target namespace, "" for none               *)
(*   decl: the prefixes that are declared for it in front of everything      *)
(*         else ("" is the default namespace), a sequence of at most one     *)
(*   kids: the children of definitions:                                      *)
(*     [k |-> "import", ns, loc]       [k |-> "types", schemas]: their targets *)
(*     [k |-> "message", name, parts]  parts: [name, by, q]                  *)
(*     [k |-> "portType", name, ops]   ops: see below                        *)
(*     [k |-> "binding", name, ty, ops], [k |-> "service", name],            *)
(*     [k |-> "ext"], [k |-> "doc"]    what says nothing                     *)
(*   operations: [name, order, doc, kind, inp, out, faults], kinds "rr", "ow",*)
(*     "sr", "no" (request-response, one way, solicit-response, notification); *)
(*     inp, out and faults: [name, msg]                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

OfKind(D, k) == SelectSeq(D.kids, LAMBDA x : x.k = k)
RangeOf(s) == {s[i] : i \in 1..Len(s)}
AllDiffer(s, Key(_)) == \A i, j \in 1..Len(s) : i # j => Key(s[i]) # Key(s[j])

(* The part of a qualified name after the colon; names are short.            *)
RECURSIVE After(_, _)
After(s, i) == IF i > Len(s) THEN s ELSE IF SubSeq(s, i, i) = ":" THEN SubSeq(s, i + 1, Len(s)) ELSE After(s, i + 1)
LocalName(q) == After(q, 1)

(* Names are keys: a document with two components of one kind and name is    *)
(* refused, nothing of it is silently dropped.                               *)
Refused(D) == ~(/\ AllDiffer(OfKind(D, "import"), LAMBDA x : x.ns)
                /\ AllDiffer(OfKind(D, "message"), LAMBDA x : x.name)
                /\ AllDiffer(OfKind(D, "portType"), LAMBDA x : x.name)
                /\ AllDiffer(OfKind(D, "binding"), LAMBDA x : x.name))

Finds(D, p) == \E m \in RangeOf(OfKind(D, "message")) : m.name = LocalName(p.msg)
Told(D, p) == [name |-> p.name, msg |-> p.msg, finds |-> IF Finds(D, p) THEN LocalName(p.msg) ELSE ""]
None == [name |-> "", msg |-> "", finds |-> ""]
OpModel(D, o) ==
  [name |-> o.name, order |-> o.order, doc |-> o.doc, kind |-> o.kind,
   inp |-> IF o.kind = "no" THEN None ELSE Told(D, o.inp),
   out |-> IF o.kind = "ow" THEN None ELSE Told(D, o.out),
   faults |-> IF o.kind \in {"rr", "sr"} THEN o.faults ELSE <<>>]
(* Sets are in no order, sequences in the order of the document.             *)
Model(D) ==
  [name  |-> D.name,
   tns   |-> IF D.tns # "" /\ D.decl # <<>> THEN <<D.decl[1], D.tns>> ELSE <<>>,
   imports |-> {[key |-> x.ns, ns |-> x.ns, loc |-> x.loc] : x \in RangeOf(OfKind(D, "import"))},
   types |-> [i \in 1..Len(OfKind(D, "types")) |-> OfKind(D, "types")[i].schemas],
   msgs  |-> {[key |-> x.name, name |-> x.name, parts |-> x.parts] : x \in RangeOf(OfKind(D, "message"))},
   pts   |-> {[key |-> x.name, name |-> x.name, ops |-> [i \in 1..Len(x.ops) |-> OpModel(D, x.ops[i])]] : x \in RangeOf(OfKind(D, "portType"))},
   binds |-> {[name |-> x.name, ty |-> x.ty] : x \in RangeOf(OfKind(D, "binding"))}]

(* The property, said without the model: nothing is lost, nothing is made up. *)
Mirrors(D, M) ==
  /\ Cardinality(M.msgs) = Len(OfKind(D, "message")) /\ Cardinality(M.pts) = Len(OfKind(D, "portType"))
  /\ Cardinality(M.imports) = Len(OfKind(D, "import"))
  /\ \A i \in 1..Len(D.kids) : LET x == D.kids[i] IN
       CASE x.k = "message" -> \E m \in M.msgs : m.name = x.name /\ m.parts = x.parts
         [] x.k = "portType" -> \E p \in M.pts : p.name = x.name /\ Len(p.ops) = Len(x.ops)
              /\ \A j \in 1..Len(x.ops) :
                   /\ p.ops[j].name = x.ops[j].name /\ p.ops[j].kind = x.ops[j].kind
                   /\ x.ops[j].kind # "no" => p.ops[j].inp.msg = x.ops[j].inp.msg
                   /\ (x.ops[j].kind # "no" /\ p.ops[j].inp.finds = "") =>
                        \A m \in M.msgs : m.name # LocalName(x.ops[j].inp.msg)
         [] x.k = "import" -> \E m \in M.imports : m.ns = x.ns /\ m.loc = x.loc
         [] x.k = "types" -> \E j \in 1..Len(M.types) : M.types[j] = x.schemas
         [] OTHER -> TRUE
=============================================================================
