----------------------------- MODULE WsdlAuthor ----------------------------
(* Writing a WSDL document, step by step; explored with TLC -simulate.       *)
EXTENDS Wsdl, XsdGen, Json

VARIABLES w, doc, cand, pc, left    \* left: components still to write in this schema
vars == <<w, doc, cand, pc, left>>

Schema(p) == [xp |-> p.xp, tp |-> p.tp, tns |-> p.tns, tops |-> <<>>]
WPrefixes == {[xp |-> "xs", tp |-> "tns", tns |-> "http://example.com/w"],
              [xp |-> "xsd", tp |-> "tds", tns |-> "urn:w"],
              [xp |-> "", tp |-> "m-y", tns |-> "urn:w"],
              [xp |-> "xs", tp |-> "", tns |-> "urn:d"]}
SecondPrefix == [xp |-> "xs", tp |-> "ext", tns |-> "urn:other:ext"]

MsgNames == {"GetRequest", "GetResponse", "SetRequest", "set-response", "m1", "Fault", "Empty", "NoteMsg", "X_9", "Request", "DoGetRequest", "getRequest", "Get", "GetRequestEx", "Response"}
OpNames == {"Get", "SetIPAddress", "do-it", "type", "GetHTTPPort", "move", "_x", "v2Get", "Op.Dot", "list", "await", "GetX", "Subscribe", "GetRequest", "get"}
PtNames == {"Device", "Media", "alpha", "Zulu", "B-type", "Dev", "device", "DEVICE", "media", "Get"}
Docs == {"", "Some documentation", "line\nbreak } fn x() {", "a */ b // c \" é", "word \n\n\n   word  word", "- \n-\n*\nx y\n ok", "http://www.example.com/a/very/long/word/that/does/not/fit/into/one/line/of/a/comment/at/all and more", "one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen seventeen eighteen nineteen twenty"}

Init == /\ pc = "schema" /\ left \in 0..3
        /\ \E p \in WPrefixes : doc = Schema(p) /\ w = [tp |-> p.tp, tns |-> p.tns, schemas |-> <<>>, msgs |-> <<>>, pts |-> <<>>]
        /\ cand = doc

Used == {doc.tops[i].name : i \in 1..Len(doc.tops)}
Propose ==
  /\ pc = "schema" /\ left > 0
  /\ cand' = [doc EXCEPT !.tops = Append(@, RandTop(doc, RandomElement(TopNames \ Used)))]
  /\ pc' = "review" /\ left' = left - 1
  /\ UNCHANGED <<w, doc>>
Review ==
  /\ pc = "review" /\ pc' = "schema"
  /\ doc' = IF Supported(cand) /\ Distinct(WItems([w EXCEPT !.schemas = Append(@, cand)])) THEN cand ELSE doc
  /\ UNCHANGED <<w, cand, left>>
(* There may be no schema at all, or a second one.                          *)
CloseSchema ==
  /\ pc = "schema" /\ left = 0
  /\ \/ w' = [w EXCEPT !.schemas = Append(@, doc)]
     \/ w' = w /\ w.schemas = <<>>
  /\ \/ pc' = "message" /\ UNCHANGED <<doc, left>>
     \/ Len(w'.schemas) = 1 /\ pc' = "schema" /\ doc' = Schema(SecondPrefix) /\ left' \in 1..2
  /\ UNCHANGED cand

Q(n) == IF w.tp = "" THEN n ELSE w.tp \o ":" \o n
TypeNames == UNION {NamesOf(w.schemas[i], {"ct", "st", "el"}) : i \in 1..Len(w.schemas)} \cup {"GetThing", "anyThing"}
RandRef == IF Chance(1, 4) THEN Pick({"o:Thing", "ext:fooType", "soap-env:Body", "_4:x", "type:T"})
           ELSE Q(Pick(TypeNames))
AddMessage ==
  /\ pc = "message" /\ Len(w.msgs) < 5
  /\ LET n == Pick(MsgNames \ {w.msgs[i].name : i \in 1..Len(w.msgs)})
         part == [name |-> Pick({"parameters", "body", "type", "p-1"}), by |-> Pick({"element", "element", "type"}), q |-> RandRef]
     IN w' = [w EXCEPT !.msgs = Append(@, [name |-> n, parts |-> IF Chance(1, 6) THEN <<>> ELSE <<part>>])]
  /\ pc' = "message"
  /\ UNCHANGED <<doc, cand, left>>
(* Some port types are told apart by case alone.                            *)
Fold(n) == [i \in 1..Len(n) |-> ToLower(Ch(n, i))]
AddPortType ==
  /\ pc \in {"message", "op"} /\ w.msgs # <<>> /\ Len(w.pts) < 3
  /\ LET free == PtNames \ {w.pts[i].name : i \in 1..Len(w.pts)}
         twins == {n \in free : \E i \in 1..Len(w.pts) : Fold(n) = Fold(w.pts[i].name)}
         n == IF twins # {} /\ Chance(1, 2) THEN Pick(twins) ELSE Pick(free) IN
     w' = [w EXCEPT !.pts = Append(@, [name |-> n, ops |-> <<>>])]
  /\ pc' = "op"
  /\ UNCHANGED <<doc, cand, left>>
UsedOps == {AllOps(w)[i].name : i \in 1..Len(AllOps(w))}
AddOperation ==
  /\ pc = "op" /\ Len(AllOps(w)) < 6
  /\ LET n == Pick(OpNames \ UsedOps)
         m == {Q(w.msgs[i].name) : i \in 1..Len(w.msgs)}
         op == [name |-> n, kind |-> Pick({"rr", "rr", "ow"}), inp |-> Pick(m), out |-> Pick(m),
                faults |-> RandSeq(0, 2, LAMBDA i : Pick(m)), doc |-> Pick(Docs)]
     IN w' = [w EXCEPT !.pts[Len(w.pts)].ops = Append(@, op)]
  /\ UNCHANGED <<doc, cand, left, pc>>
Finish == /\ pc = "op" /\ pc' = "done" /\ UNCHANGED <<w, doc, cand, left>>
Next == Propose \/ Review \/ CloseSchema \/ AddMessage \/ AddPortType \/ AddOperation \/ Finish

Emit == (pc = "done" /\ WSupported(w)) => PropWsdl(w) /\ PrintT("@@" \o ToJson(w))
=============================================================================
