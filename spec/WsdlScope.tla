----------------------------- MODULE WsdlScope -----------------------------
(* Every document with up to two port types of one operation each, over all  *)
(* kinds of operations and messages, and references to every kind of name.  *)
EXTENDS Wsdl, Json
CONSTANT Deep
VARIABLES w, seen

Empty == [xp |-> "xs", tp |-> "tns", tns |-> "urn:w", tops |-> <<>>]
Ct == [m |-> "seq", inner |-> "none", base |-> "", attrs |-> <<>>,
       parts |-> <<[k |-> "el", name |-> "v", ty |-> [k |-> "q", q |-> "xs:int"], min |-> "0", max |-> ""]>>]
Tops == {<<>>, <<[k |-> "ct", name |-> "Ty", ct |-> Ct], [k |-> "el", name |-> "El", ty |-> [k |-> "ct", ct |-> Ct]]>>}
Refs(tp) == (IF tp = "" THEN {"El"} ELSE {tp \o ":El", tp \o ":get-http-Port"}) \cup {"o:El", "_9:self", "fn:IPv4"}
Parts(tp) == {<<>>} \cup {<<[name |-> "p", by |-> b, q |-> r]>> : b \in {"element", "type"}, r \in Refs(tp)}
Prefs == {[tp |-> "tns", tns |-> "urn:w"], [tp |-> "", tns |-> "urn:w"], [tp |-> "", tns |-> ""]}
OpsNamed(n, Q(_)) == [name : {n}, kind : {"rr", "ow"}, inp : {Q("A")}, out : {Q("B")}, faults : {<<>>, <<Q("A")>>, <<Q("B"), Q("A")>>}, doc : {""}]
DocsOf(p) ==
  LET Q(n) == IF p.tp = "" THEN n ELSE p.tp \o ":" \o n IN
  {[tp |-> p.tp, tns |-> p.tns, schemas |-> IF s = <<>> THEN <<>> ELSE <<[Empty EXCEPT !.tops = s, !.tp = p.tp, !.tns = p.tns]>>,
    msgs |-> ms, pts |-> <<[name |-> "P", ops |-> <<op>>]>>] :
      s \in IF Deep THEN Tops ELSE {<<>>},
      ms \in {<<[name |-> "A", parts |-> a], [name |-> "B", parts |-> b]>> : a \in Parts(p.tp), b \in Parts(p.tp)},
      op \in IF Deep THEN UNION {OpsNamed(n, Q) : n \in {"Get", "loop", "GetHTTPPort"}} ELSE OpsNamed("Get", Q)}
(* port types and operations: how many, in which order                      *)
Layouts ==
  LET msgs == <<[name |-> "A", parts |-> <<[name |-> "p", by |-> "element", q |-> "tns:El"]>>],
                [name |-> "B", parts |-> <<>>]>>
      Op(n) == [name |-> n, kind |-> "rr", inp |-> "tns:A", out |-> "tns:B", faults |-> <<>>, doc |-> "d"]
      OpSeqs(ns) == {<<>>} \cup {<<Op(n)>> : n \in ns} \cup {<<Op(a), Op(b)>> : a, b \in ns}
      PtSeqs == {<<[name |-> a, ops |-> oa], [name |-> b, ops |-> ob], [name |-> c, ops |-> oc]>> :
                   a \in {"A", "z"}, b \in {"M", "b"}, c \in {"C"},
                   oa \in OpSeqs({"X", "y"}), ob \in OpSeqs({"N", "k"}), oc \in OpSeqs({"D", "e"})}
  IN {[tp |-> "tns", tns |-> "urn:w", schemas |-> <<>>, msgs |-> msgs, pts |-> ps] : ps \in PtSeqs}

(* names that resemble each other, within a kind and across kinds           *)
Alike == {"Get", "DoGet", "GetRequest", "Request", "get", "GET", "GetGet", "Ge", "G", "tGetRequest", "Get-Request", "Get_Request", "Get.Request", "tns"}
PartsOf(n) == <<[name |-> "p", by |-> "element", q |-> "tns:E" \o n]>>
NamesakeDocs ==
  {[tp |-> "tns", tns |-> "urn:w", schemas |-> <<>>,
    msgs |-> [i \in 1..Len(ns) |-> [name |-> ns[i], parts |-> PartsOf(ToString(i))]],
    pts |-> <<[name |-> pn, ops |-> <<[name |-> on, kind |-> "rr", inp |-> "tns:" \o ns[1], out |-> "tns:" \o ns[2], faults |-> <<>>, doc |-> ""],
                                      [name |-> on \o "X", kind |-> k, inp |-> "tns:" \o ns[2], out |-> "tns:" \o ns[1], faults |-> <<"tns:" \o ns[1]>>, doc |-> ""]>>]>>]
     : ns \in {<<a, b>> : a, b \in Alike} \cup (IF Deep THEN {<<a, b, c>> : a, b, c \in Alike} ELSE {<<a, b, "GetRequest">> : a, b \in Alike}),
       pn \in {"Get"}, on \in IF Deep THEN {"Get", "DoGet", "Request"} ELSE {"Get"}, k \in {"rr", "ow"}}

(* words that are reserved in Rust, in the places of names                   *)
Words == Keywords \cup {"Type", "Loop", "FN", "Async", "externCrate", "9", "_9", "a.b", "A-", "x1", "x1Y2", "IPv6Address", "a_é"}
WordDocs ==
  {[tp |-> "tns", tns |-> "urn:w", schemas |-> <<>>,
    msgs |-> <<[name |-> IF at = "msg" THEN n ELSE "A", parts |-> PartsOf("l")], [name |-> "B", parts |-> IF at = "part" THEN <<[name |-> n, by |-> "element", q |-> "tns:" \o n]>> ELSE <<>>]>>,
    pts |-> <<[name |-> IF at = "pt" THEN n ELSE "P",
               ops |-> <<[name |-> IF at = "op" THEN n ELSE "Get", kind |-> "rr", inp |-> "tns:" \o (IF at = "msg" THEN n ELSE "A"), out |-> "tns:B", faults |-> <<>>, doc |-> ""]>>]>>]
     : n \in Words, at \in {"op", "msg", "part", "pt"}}

(* lines of documentation                                                   *)
Lines == {"* one", "- two three", "// x y", "/** y", "*/ z", "1. z", "#[x]", "word", "", "x", "ab", "  indented more", "@param p", "é è", "a.", "{", "\\n", "\"q\"", "Yields nothing; returns everything.",
          "http://www.onvif.org/onvif/ver10/device/wsdl/devicemgmt.wsdl/and/more/and/yet/more/of/it", "<xs:tag a='b'> & more"}
NoteDocs ==
  {[tp |-> "tns", tns |-> "urn:w", schemas |-> <<>>,
    msgs |-> <<[name |-> "A", parts |-> PartsOf("l")], [name |-> "B", parts |-> <<>>]>>,
    pts |-> <<[name |-> "P", ops |-> <<[name |-> "Get", kind |-> k, inp |-> "tns:A", out |-> "tns:B", faults |-> <<>>, doc |-> d]>>]>>]
     : k \in {"rr", "ow"}, d \in Lines \cup {a \o "\n" \o b : a, b \in Lines} \cup (IF Deep THEN {a \o "\n" \o b \o "\n " \o c : a, b, c \in Lines} ELSE {})}

Init == seen = FALSE /\ w \in NoteDocs \cup WordDocs \cup UNION {DocsOf(p) : p \in Prefs} \cup Layouts \cup NamesakeDocs
Next == ~seen /\ seen' = TRUE /\ UNCHANGED w
Check == (seen /\ WSupported(w)) => PropWsdl(w) /\ PrintT("@@" \o ToJson(w))
=============================================================================
