-------------------------------- MODULE Wsdl -------------------------------
(* The meaning of a WSDL document: the definitions of its embedded schemas,  *)
(* and one function per operation.                                          *)
(*                                                                          *)
(* A document is a record [tp, tns, schemas, msgs, pts]                      *)
(*   tp, tns: as in Xsd                                                     *)
(*   schemas: schema documents (see Xsd)                                    *)
(*   msgs:    [name, parts], parts: [name, by, q], by "element" or "type"   *)
(*   pts:     port types [name, ops], ops:                                  *)
(*            [name, kind, inp, out, faults, doc]                           *)
(*            kind "rr" (request and response) or "ow" (one way); inp, out  *)
(*            and faults are names of messages                              *)
EXTENDS XsdDomain

(* Names of types are relative to the target namespace of the definitions.  *)
WForeign(w, q) == HasPrefix(q) /\ ~(w.tns # "" /\ Prefix(q) = w.tp)
WTypePath(w, q) == IF WForeign(w, q) THEN ModuleOf(Prefix(q)) \o "::" \o TypeIdent(q)
                   ELSE TypeIdent(q)

Message(w, name) == SelectSeq(w.msgs, LAMBDA m : m.name = Local(name))
PartOf(w, name) == LET m == Message(w, name) IN IF m = <<>> THEN <<>> ELSE m[1].parts

Fun(w, op) ==
  LET i == PartOf(w, op.inp)
      o == IF op.kind = "rr" THEN PartOf(w, op.out) ELSE <<>>
      result == IF o = <<>> THEN "()" ELSE WTypePath(w, o[1].q)
  IN [name |-> FieldIdent(op.name),
      args |-> <<"&T">> \o (IF i = <<>> THEN <<>> ELSE <<"&" \o WTypePath(w, i[1].q)>>),
      ret  |-> "Result<" \o result \o ",transport::Error>"]

Functions(w) == Concat([p \in 1..Len(w.pts) |->
                         [o \in 1..Len(w.pts[p].ops) |-> Fun(w, w.pts[p].ops[o])]])
WItems(w) == Concat([s \in 1..Len(w.schemas) |-> Items(w.schemas[s])])

(* The documents the property speaks of.                                    *)
AllOps(w) == Concat([p \in 1..Len(w.pts) |-> w.pts[p].ops])
WSupported(w) ==
  /\ NoDup([i \in 1..Len(w.msgs) |-> w.msgs[i].name])
  /\ NoDup([i \in 1..Len(w.pts) |-> w.pts[i].name])
  /\ \A i \in 1..Len(w.msgs) : Len(w.msgs[i].parts) <= 1
  /\ \A i \in 1..Len(w.schemas) : Supported(w.schemas[i])
  /\ Distinct(WItems(w))
  /\ LET fs == Functions(w) IN
     /\ NoDup([i \in 1..Len(fs) |-> fs[i].name])
     /\ \A i \in 1..Len(fs) : LegalIdent(fs[i].name)

(***************************************************************************)
(* The property, said without the definitions above                         *)
(***************************************************************************)
PropWsdl(w) ==
  LET fs == Functions(w)
      ops == AllOps(w)
      named(op) == {i \in 1..Len(fs) : fs[i].name = FieldIdent(op.name)}
      plain(q) == TypeIdent(q)
  IN /\ Len(fs) = Len(ops)
     /\ \A o \in 1..Len(ops) :
          /\ Cardinality(named(ops[o])) = 1
          /\ LET f == fs[CHOOSE i \in named(ops[o]) : TRUE]
                 m == Message(w, ops[o].inp)
                 r == Message(w, ops[o].out)
             IN /\ Len(f.args) = (IF m = <<>> \/ m[1].parts = <<>> THEN 1 ELSE 2)
                /\ (ops[o].kind = "ow" \/ r = <<>> \/ r[1].parts = <<>>) <=> f.ret = "Result<(),transport::Error>"
                /\ (Len(f.args) = 2 /\ ~WForeign(w, m[1].parts[1].q)) => f.args[2] = "&" \o plain(m[1].parts[1].q)
=============================================================================
