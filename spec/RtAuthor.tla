------------------------------ MODULE RtAuthor -----------------------------
(* Writing schemas of the domain of round trips, component by component.     *)
(* Like XsdAuthor, with more of what can be compiled; a proposal outside the  *)
(* domain is rejected in review.                                             *)
EXTENDS XsdGen, Json
CONSTANT MaxTops
RT == INSTANCE RoundTrip

Scalars == DOMAIN Builtins \ {"ENTITIES", "IDREFS", "NMTOKENS", "anySimpleType"}
RB(doc) == XsdQ(doc, Pick(Scalars))
Tuples_(doc) == {doc.tops[i].name : i \in {j \in 1..Len(doc.tops) : doc.tops[j].k = "st" /\ RT!TupleRuns(doc, doc.tops[j].st)}}
Simples(doc) == {doc.tops[i].name : i \in {j \in 1..Len(doc.tops) : doc.tops[j].k = "st" /\ RT!StRuns(doc, doc.tops[j].st)}}
Complexes(doc) == NamesOf(doc, {"ct"})
One(doc, S) == IF S = {} THEN RB(doc) ELSE TnsQ(doc, Pick(S))
SimpleQ(doc) == IF Chance(1, 2) THEN RB(doc) ELSE One(doc, Simples(doc))
ItemQ(doc) == IF Chance(2, 3) THEN RB(doc) ELSE One(doc, Tuples_(doc))
MemberQ(doc, self) ==
  LET r == RandomElement(1..8) IN
  IF r <= 3 THEN RB(doc) ELSE IF r <= 5 THEN One(doc, Simples(doc)) ELSE IF r <= 7 \/ self = "" THEN One(doc, Complexes(doc)) ELSE TnsQ(doc, self)

EnumFacets(doc) == LET n == RandomElement(1..4) IN LET vs == [i \in 1..n |-> Pick(EnumVals)] IN [i \in 1..n |-> [f |-> "enumeration", v |-> vs[i]]]
RSt(doc, union) ==
  LET r == RandomElement(1..10) IN
  IF r <= 3 THEN [k |-> "rst", base |-> XsdQ(doc, Pick({"string", "token", "NMTOKEN"})), facets |-> EnumFacets(doc)]
  ELSE IF r <= 6 THEN [k |-> "rst", base |-> ItemQ(doc), facets |-> <<>>]
  ELSE IF r <= 8 \/ ~union THEN [k |-> "list", ty |-> IF Chance(2, 3) THEN [k |-> "q", q |-> ItemQ(doc)]
                                                      ELSE [k |-> "st", st |-> [k |-> "rst", base |-> RB(doc), facets |-> <<>>]]]
  ELSE [k |-> "union", qs |-> RandSeq(0, 3, LAMBDA i : ItemQ(doc)),
        sts |-> RandSeq(0, 2, LAMBDA i : [k |-> "rst", base |-> RB(doc), facets |-> <<>>])]
ROcc(doc) == Pick({<<"", "">>, <<"", "">>, <<"0", "">>, <<"0", "1">>, <<"0", "unbounded">>, <<"", "unbounded">>, <<"1", "1">>, <<"2", "3">>, <<"0", "0">>, <<"", "2">>, <<"0", "7">>, <<"01", " unbounded ">>, <<"3", "unbounded">>})
RAt(doc) == LET r == RandomElement(1..6) IN
  IF r <= 4 \/ NamesOf(doc, {"ag"}) = {}
  THEN [k |-> "at", name |-> Pick(AttNames), ty |-> IF Chance(5, 6) THEN [k |-> "q", q |-> SimpleQ(doc)] ELSE NoTy, use |-> Pick(Uses)]
  ELSE [k |-> "ag", q |-> TnsQ(doc, Pick(NamesOf(doc, {"ag"})))]
RAts(doc, hi) == LET s == RandSeq(0, hi, LAMBDA i : RAt(doc)) IN IF Chance(1, 8) THEN Append(s, [k |-> "any"]) ELSE s
RECURSIVE RCt(_, _, _)
RPart(doc, self, depth) ==
  LET r == RandomElement(1..12)
      o == ROcc(doc)
      el(ty) == [k |-> "el", name |-> Pick(MemNames), ty |-> ty, min |-> o[1], max |-> o[2]]
      els == {doc.tops[i].name : i \in {j \in 1..Len(doc.tops) : doc.tops[j].k = "el" /\ doc.tops[j].ty.k # "q"}}
  IN IF r <= 6 \/ (depth = 0 /\ r <= 9) THEN el([k |-> "q", q |-> MemberQ(doc, self)])
     ELSE IF r <= 8 THEN el([k |-> "ct", ct |-> RCt(doc, "", depth - 1)])
     ELSE IF r <= 10 THEN el([k |-> "st", st |-> RSt(doc, FALSE)])
     ELSE IF r = 11 /\ els # {} THEN [k |-> "ref", q |-> TnsQ(doc, Pick(els)), min |-> o[1], max |-> o[2]]
     ELSE IF r = 12 THEN [k |-> "any"] ELSE el([k |-> "q", q |-> RB(doc)])
RAlt(doc) == [k |-> "el", name |-> Pick(MemNames), ty |-> [k |-> "q", q |-> IF Chance(3, 4) THEN SimpleQ(doc) ELSE MemberQ(doc, "")], min |-> Pick({"", "1"}), max |-> Pick({"", "1"})]
RAlts(doc) == RandSeq(1, 4, LAMBDA i : RAlt(doc))
RParts(doc, self, depth) ==
  LET s == RandSeq(0, 4, LAMBDA i : RPart(doc, self, depth)) IN
  IF Chance(1, 5) THEN LET i == RandomElement(0..Len(s)) IN SubSeq(s, 1, i) \o <<[k |-> "choice", parts |-> RAlts(doc)]>> \o SubSeq(s, i + 1, Len(s)) ELSE s
RCt(doc, self, depth) ==
  LET r == RandomElement(1..10)
      plain(m, parts) == [m |-> m, inner |-> "none", base |-> "", parts |-> parts, attrs |-> RAts(doc, 3)]
  IN IF r <= 4 THEN plain("seq", RParts(doc, self, depth))
     ELSE IF r <= 5 THEN plain("all", RandSeq(0, 3, LAMBDA i : RPart(doc, self, depth)))
     ELSE IF r <= 6 THEN plain("choice", RAlts(doc))
     ELSE IF r <= 7 THEN plain("empty", <<>>)
     ELSE IF Complexes(doc) = {} THEN plain("seq", RParts(doc, self, depth))
     ELSE LET inner == Pick({"none", "seq", "seq", "all", "choice"}) IN
          [plain("ext", CASE inner = "none" -> <<>>
                          [] inner = "choice" -> RAlts(doc)
                          [] inner = "all" -> RandSeq(1, 3, LAMBDA i : RPart(doc, self, depth))
                          [] OTHER -> RParts(doc, self, depth))
           EXCEPT !.inner = inner, !.base = TnsQ(doc, Pick(Complexes(doc)))]
RTop(doc, name) ==
  LET r == RandomElement(1..14) IN
  IF r <= 6 THEN [k |-> "ct", name |-> name, ct |-> RCt(doc, name, 2)]
  ELSE IF r <= 9 THEN [k |-> "st", name |-> name, st |-> RSt(doc, TRUE)]
  ELSE IF r <= 11 THEN [k |-> "el", name |-> name, ty |-> [k |-> "ct", ct |-> RCt(doc, "", 2)]]
  ELSE IF r <= 12 THEN [k |-> "el", name |-> name, ty |-> [k |-> "st", st |-> RSt(doc, FALSE)]]
  ELSE [k |-> "ag", name |-> name, attrs |-> RAts(doc, 3)]

VARIABLES doc, cand, size, tries, pc
Init == /\ pc = "write" /\ tries = 0
        /\ size \in 3..MaxTops
        /\ \E p \in Prefixes : doc = [xp |-> p.xp, tp |-> p.tp, tns |-> p.tns, tops |-> <<>>]
        /\ cand = doc
Used == {doc.tops[i].name : i \in 1..Len(doc.tops)}
Insert(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
Propose == /\ pc = "write" /\ Len(doc.tops) < size
           /\ cand' = [doc EXCEPT !.tops = Insert(doc.tops, RandomElement(0..Len(doc.tops)), RTop(doc, RandomElement(TopNames \ Used)))]
           /\ pc' = "review" /\ tries' = tries + 1 /\ UNCHANGED <<doc, size>>
Review == /\ pc = "review"
          /\ doc' = IF RT!Runs(cand) THEN cand ELSE doc
          /\ pc' = "write" /\ UNCHANGED <<cand, size, tries>>
Finish == /\ pc = "write" /\ (Len(doc.tops) = size \/ tries > 30) /\ doc.tops # <<>>
          /\ pc' = "done" /\ UNCHANGED <<doc, cand, size, tries>>
Next == Propose \/ Review \/ Finish
Emit == pc = "done" => PrintT("@@" \o ToJson(doc))
=============================================================================
