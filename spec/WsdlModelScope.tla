--------------------------- MODULE WsdlModelScope --------------------------
(* All small definitions: every shape of an operation over every pair of     *)
(* messages, every order of up to three children of every kind.              *)
EXTENDS WsdlModel, Json
VARIABLES D, seen
P(m) == [name |-> "", msg |-> m]
Ms == {"tns:A", "A", "o:A", "tns:AB", "B"}
Fs == {<<>>, <<[name |-> "f", msg |-> "tns:A"]>>, <<[name |-> "f", msg |-> "tns:B"], [name |-> "g", msg |-> "tns:B"]>>}
Operations == { [name |-> "Op", order |-> "", doc |-> d, kind |-> k, inp |-> P(i), out |-> P(o), faults |-> f] :
                 d \in {"", "words"}, k \in {"rr", "ow", "sr", "no"}, i \in Ms, o \in Ms, f \in Fs }
Msg(n) == [k |-> "message", name |-> n, parts |-> <<[name |-> "p", by |-> "element", q |-> "tns:e"]>>]
Pt(n, ops) == [k |-> "portType", name |-> n, ops |-> ops]
Defs(kids) == [name |-> "", tns |-> "urn:t", decl |-> <<"tns">>, kids |-> kids]
AnOp == [name |-> "Op", order |-> "", doc |-> "", kind |-> "ow", inp |-> P("tns:A"), out |-> P("tns:A"), faults |-> <<>>]
Kids == { [k |-> "import", ns |-> "urn:a", loc |-> "l"], [k |-> "import", ns |-> "urn:b", loc |-> "l"],
          [k |-> "types", schemas |-> <<"urn:a">>], [k |-> "types", schemas |-> <<"", "urn:b">>], Msg("A"), Msg("B"),
          Pt("A", <<AnOp>>), Pt("B", <<>>), [k |-> "binding", name |-> "A", ty |-> "tns:A", ops |-> <<[name |-> "Op"]>>],
          [k |-> "service", name |-> "A"], [k |-> "ext"], [k |-> "doc"] }
SmallDefs == { Defs(<<Msg("A"), Msg("B"), Pt("P", <<o>>)>>) : o \in Operations }
        \cup { Defs(<<Pt("P", <<o, AnOp>>), Msg("AB")>>) : o \in {x \in Operations : x.faults = <<>>} }
        \cup { Defs(<<a, b, c>>) : a \in Kids, b \in Kids, c \in Kids }
        \cup { Defs(<<a, b>>) : a \in Kids, b \in Kids }
        \cup { [Defs(<<a>>) EXCEPT !.tns = t, !.decl = d, !.name = n] : a \in Kids, t \in {"", "urn:t"}, d \in {<<>>, <<"">>, <<"tns">>}, n \in {"", "N"} }
Init == D \in SmallDefs /\ seen = FALSE
Next == ~seen /\ seen' = TRUE /\ UNCHANGED D
Emit == seen => /\ Refused(D) \/ Mirrors(D, Model(D))
                /\ PrintT("@@" \o ToJson(D))
=============================================================================
