----------------------------- MODULE SessionGen ----------------------------
(* Histories of a session: all short ones (breadth first) or random long     *)
(* ones (-simulate); emitted to be replayed on the real library.            *)
EXTENDS Session, Json, TLC
CONSTANTS MaxLen, Kinds
VARIABLE hist
Init == SInit /\ kind \in Kinds /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E op \in Ops : \E r \in Results : Step(op, r) /\ hist' = Append(hist, op)
(* A history is emitted when it is complete and looks at some code.         *)
Observes == \E i \in 1..Len(hist) : hist[i].a \in {"gen", "entity", "wsdl"}
Emit == /\ TypeOK
        /\ (Len(hist) = MaxLen /\ Observes) => PrintT("@@" \o ToJson([kind |-> kind, ops |-> hist]))
K2 == {<<"xsd", "xsd">>}
K3 == {<<"xsd", "wsdl", "bad", "xsd">>, <<"xsd", "xsd", "bad", "xsd">>, <<"xsd", "xsd", "wsdl", "wsdl">>}
=============================================================================
