----------------------------- MODULE XsdAuthor -----------------------------
(* Writing a schema, as a state machine; explored with TLC -simulate.       *)
(* Components are inserted at any place, and may move, so references go      *)
(* forward as well as backward.  A finished document is emitted.            *)
EXTENDS XsdGen, Json

CONSTANT MaxTops
(* doc: accepted so far; cand: a proposal (the document with one more       *)
(* component), looked at in a step of its own; size: where to stop.         *)
VARIABLES doc, cand, size, pc
vars == <<doc, cand, size, pc>>

Init == /\ pc = "write"
        /\ size \in 1..MaxTops
        /\ \E p \in Prefixes : doc = [xp |-> p.xp, tp |-> p.tp, tns |-> p.tns, tops |-> <<>>]
        /\ cand = doc

Used == {doc.tops[i].name : i \in 1..Len(doc.tops)}

Insert(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))

Propose ==
  /\ pc = "write" /\ Len(doc.tops) < size
  /\ LET top == RandTop(doc, RandomElement(TopNames \ Used)) IN
     cand' = [doc EXCEPT !.tops = Insert(doc.tops, RandomElement(0..Len(doc.tops)), top)]
  /\ pc' = "review"
  /\ UNCHANGED <<doc, size>>

Review ==
  /\ pc = "review"
  /\ doc' = IF Supported(cand) THEN cand ELSE doc
  /\ pc' = "write"
  /\ UNCHANGED <<cand, size>>

(* Moving a component changes nothing but the order of definitions.         *)
MoveFirstToLast ==
  /\ pc = "write" /\ Len(doc.tops) > 1
  /\ doc' = [doc EXCEPT !.tops = Append(Tail(doc.tops), Head(doc.tops))]
  /\ UNCHANGED <<cand, size, pc>>

Finish == /\ pc = "write" /\ Len(doc.tops) = size
          /\ pc' = "done"
          /\ UNCHANGED <<doc, cand, size>>

Next == Propose \/ Review \/ MoveFirstToLast \/ Finish
Spec == Init /\ [][Next]_vars

Emit == pc = "done" => PrintT("@@" \o ToJson(doc))
=============================================================================
