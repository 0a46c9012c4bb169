------------------------------ MODULE WsdlEdit -----------------------------
(* Maintaining a WSDL document: it begins with an extract of a real one      *)
(* (CORPUS) and changes edit by edit; explored with TLC -simulate.           *)
EXTENDS Wsdl, XsdGen, Json, IOUtils
Corpus == ndJsonDeserialize(IOEnv.CORPUS)
CONSTANT MaxEdits
VARIABLES w, cand, left, pc
DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsertAt(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
Any1(s) == RandomElement(1..Len(s))
OtherName(n) == Pick({n \o "2", "x-" \o n, n \o "_", n \o "Request", "Get" \o n, n \o ".v1", Snake(n), "A" \o n, n \o "É"})
MsgQ(n) == IF w.tp = "" THEN n ELSE w.tp \o ":" \o n
MsgRefs == {MsgQ(w.msgs[i].name) : i \in 1..Len(w.msgs)}
Elements == UNION {NamesOf(w.schemas[i], {"ct", "st", "el"}) : i \in 1..Len(w.schemas)}
NewPart == [name |-> Pick({"parameters", "body"}), by |-> Pick({"element", "type"}),
            q |-> IF Chance(1, 3) \/ Elements = {} THEN Pick({"o:Thing", "tt:Date-Time", "tX:b"}) ELSE MsgQ(Pick(Elements))]
EditOp(op) ==
  LET r == RandomElement(1..7) IN
  CASE r = 1 -> [op EXCEPT !.name = OtherName(op.name)]
    [] r = 2 -> [op EXCEPT !.kind = IF @ = "rr" THEN "ow" ELSE "rr", !.out = IF @ = "" THEN Pick(MsgRefs) ELSE @]
    [] r = 3 -> [op EXCEPT !.inp = Pick(MsgRefs)]
    [] r = 4 /\ op.kind = "rr" -> [op EXCEPT !.out = Pick(MsgRefs)]
    [] r = 5 -> [op EXCEPT !.faults = Append(@, Pick(MsgRefs))]
    [] r = 6 -> [op EXCEPT !.doc = Pick({"", "changed", "a */ b"})]
    [] OTHER -> [op EXCEPT !.faults = <<>>]
EditPt(pt) ==
  LET r == RandomElement(1..5)
      n == Len(pt.ops)
  IN CASE r = 1 /\ n > 0 -> [pt EXCEPT !.ops = DropAt(@, Any1(@))]
       [] r = 2 /\ n > 0 -> LET o == pt.ops[Any1(pt.ops)] IN [pt EXCEPT !.ops = InsertAt(@, RandomElement(0..n), [o EXCEPT !.name = OtherName(@)])]
       [] r = 3 -> [pt EXCEPT !.name = OtherName(@)]
       [] n > 0 -> LET i == Any1(pt.ops) IN [pt EXCEPT !.ops[i] = EditOp(@)]
       [] OTHER -> pt
EditMsg(m) ==
  LET r == RandomElement(1..3) IN
  CASE r = 1 -> [m EXCEPT !.parts = <<NewPart>>]
    [] r = 2 -> [m EXCEPT !.parts = <<>>]
    [] OTHER -> [m EXCEPT !.parts = IF @ = <<>> THEN <<NewPart>> ELSE [@ EXCEPT ![1].by = IF @ = "type" THEN "element" ELSE "type"]]
Init == /\ pc = "write" /\ left \in 1..MaxEdits
        /\ w \in {Corpus[i] : i \in 1..Len(Corpus)} /\ cand = w
Propose ==
  /\ pc = "write" /\ left > 0 /\ left' = left - 1 /\ pc' = "review"
  /\ LET r == RandomElement(1..9) IN
     cand' = CASE r <= 3 /\ w.pts # <<>> -> LET i == Any1(w.pts) IN [w EXCEPT !.pts[i] = EditPt(@)]
               [] r = 4 /\ w.msgs # <<>> -> LET i == Any1(w.msgs) IN [w EXCEPT !.msgs[i] = EditMsg(@)]
               [] r = 5 /\ w.msgs # <<>> -> [w EXCEPT !.msgs = InsertAt(@, RandomElement(0..Len(@)), [w.msgs[Any1(w.msgs)] EXCEPT !.name = OtherName(@)])]
               [] r = 6 /\ w.pts # <<>> -> LET i == Any1(w.pts) IN     \* some operations go to a port type of their own
                     IF Len(w.pts[i].ops) < 2 THEN w
                     ELSE LET k == RandomElement(1..(Len(w.pts[i].ops) - 1)) IN
                          [w EXCEPT !.pts = InsertAt([w.pts EXCEPT ![i].ops = SubSeq(@, 1, k)], RandomElement(0..Len(w.pts)),
                                                     [name |-> OtherName(w.pts[i].name), ops |-> SubSeq(w.pts[i].ops, k + 1, Len(w.pts[i].ops))])]
               [] r = 7 /\ w.schemas # <<>> -> LET i == Any1(w.schemas) IN
                     [w EXCEPT !.schemas[i].tops = InsertAt(@, RandomElement(0..Len(@)), RandTop(w.schemas[i], Pick(TopNames)))]
               [] r = 8 /\ w.msgs # <<>> -> [w EXCEPT !.msgs = LET i == Any1(w.msgs) IN Append(DropAt(w.msgs, i), w.msgs[i])]
               [] OTHER -> [w EXCEPT !.pts = [i \in 1..Len(w.pts) |-> w.pts[Len(w.pts) + 1 - i]]]
  /\ UNCHANGED w
Review == /\ pc = "review" /\ pc' = "write"
          /\ w' = IF WSupported(cand) THEN cand ELSE w
          /\ UNCHANGED <<cand, left>>
Finish == pc = "write" /\ left = 0 /\ pc' = "done" /\ UNCHANGED <<w, cand, left>>
Next == Propose \/ Review \/ Finish
Emit == (pc = "done" /\ WSupported(w)) => PropWsdl(w) /\ PrintT("@@" \o ToJson(w))
=============================================================================
