---------------------------- MODULE WsdlModelGen ---------------------------
(* Writing definitions, child by child and operation by operation.           *)
EXTENDS WsdlModel, Json
VARIABLES D, pc
vars == <<D, pc>>
OneOf(S) == RandomElement(S)
Once(n) == RandomElement(1..n) = 1
SomeSeq(lo, hi, f(_)) == LET n == RandomElement(lo..hi) IN [i \in 1..n |-> f(i)]

MNames == {"A", "b", "A-1", "GetRequest", "getRequest", "Get", "Request", "input", "message", "_x", "A.b"}
Names == {"P", "portType", "Device", "device", "operation", "types", "P2", "x-y", "Ünï"}
QNames == {"tns:" \o m : m \in MNames} \cup MNames \cup {"o:" \o m : m \in {"A", "Get", "zz"}} \cup {"tns:Missing", "gone"}
Namespaces == {"urn:a", "urn:b", "urn:a/", "http://example.com/w", "urn:A", ""}
Orders == {"", "", "a", "a b  c"}
Notes == {"", "", "", "Some words.", "x", "two\nlines < & >", "input"}

Start == \E t \in {"", "urn:t", "http://example.com/w"} : \E d \in {<<>>, <<"tns">>, <<"">>, <<"n.1">>, <<"xsl">>} :
           D = [name |-> OneOf({"", "Defs", "a-b"}), tns |-> t, decl |-> d, kids |-> <<>>]
Init == Start /\ pc = "go"
Add(x) == D' = [D EXCEPT !.kids = Append(@, x)]
Param(i) == [name |-> OneOf({"", "In", "out-1", "p"}), msg |-> OneOf(QNames)]
FaultOf(i) == [name |-> OneOf({"F", "f-2", "Fault"}) \o ToString(i), msg |-> OneOf(QNames)]
Op(i) == [name |-> OneOf(Names), order |-> OneOf(Orders), doc |-> OneOf(Notes), kind |-> OneOf({"rr", "rr", "ow", "sr", "no"}),
          inp |-> Param(i), out |-> Param(i), faults |-> SomeSeq(0, 3, FaultOf)]
PartRec(i) == LET by == OneOf({"element", "type", "none"}) IN
              [name |-> OneOf({"p", "parameters", "body", "x.y"}) \o ToString(i), by |-> by, q |-> IF by = "none" THEN "" ELSE OneOf(QNames)]
BoundOp(i) == [name |-> OneOf(Names)]
(* Names are seldom used twice, as that document is refused.                 *)
Fresh(k, S) == LET left == S \ {x.name : x \in RangeOf(OfKind(D, k))} IN IF left = {} \/ Once(40) THEN OneOf(S) ELSE OneOf(left)
FreshNs == LET left == Namespaces \ {x.ns : x \in RangeOf(OfKind(D, "import"))} IN IF left = {} \/ Once(20) THEN OneOf(Namespaces) ELSE OneOf(left)
Next ==
  \/ /\ pc = "go" /\ Len(D.kids) < 12
     /\ \/ Add([k |-> "import", ns |-> FreshNs, loc |-> OneOf({"a.wsdl", "", "../b c"})])
        \/ Add([k |-> "types", schemas |-> SomeSeq(0, 3, LAMBDA i : OneOf({"urn:a", "urn:b", ""}))])
        \/ Add([k |-> "message", name |-> Fresh("message", MNames), parts |-> SomeSeq(0, 3, PartRec)])
        \/ Add([k |-> "message", name |-> Fresh("message", MNames), parts |-> SomeSeq(1, 1, PartRec)])
        \/ Add([k |-> "portType", name |-> Fresh("portType", Names), ops |-> SomeSeq(0, 4, Op)])
        \/ Add([k |-> "binding", name |-> Fresh("binding", Names), ty |-> OneOf(QNames), ops |-> SomeSeq(0, 2, BoundOp)])
        \/ Add([k |-> "service", name |-> OneOf(Names)])
        \/ Add([k |-> OneOf({"ext", "doc"})])
     /\ pc' = "go"
  \/ pc = "go" /\ pc' = "done" /\ UNCHANGED D
Emit == pc = "done" => /\ Refused(D) \/ Mirrors(D, Model(D))
                       /\ PrintT("@@" \o ToJson(D))
=============================================================================
