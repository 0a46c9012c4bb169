------------------------------- MODULE XsdEdit -----------------------------
(* Maintaining a schema, as a state machine: it begins with an extract of a  *)
(* schema somebody wrote (CORPUS), and changes it edit by edit.  Explored    *)
(* with TLC -simulate; the document after the last edit is emitted.          *)
EXTENDS XsdGen, Json, IOUtils

Corpus == ndJsonDeserialize(IOEnv.CORPUS)
CONSTANTS MaxEdits, Rough        \* Rough: whatever is written is accepted, also types made of themselves
VARIABLES doc, cand, left, pc
vars == <<doc, cand, left, pc>>

DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsertAt(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
SwapAt(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Any1(s) == RandomElement(1..Len(s))

(* ------------------------------------------------------------ other names *)
OtherName(n) == LET r == RandomElement(1..8) IN
  CASE r = 1 -> n \o "2" [] r = 2 -> "x-" \o n [] r = 3 -> n \o "_" [] r = 4 -> n \o ".Type" [] r = 5 -> Pick(MemNames)
    [] r = 6 -> Snake(n) \o "b" [] r = 7 -> Pascal(n) \o "é" [] OTHER -> "A" \o n

BaseNames(d, self) == NamesOf(d, {"ct"}) \ (IF Rough THEN {} ELSE {self})

(* ------------------------------------------------------------ edits of ... *)
RECURSIVE EditSt(_, _)
EditSt(d, st) ==
  LET r == RandomElement(1..6) IN
  IF st.k = "rst" /\ r <= 4
  THEN LET fs == st.facets
           en == [f |-> "enumeration", v |-> Pick(EnumVals)]
       IN CASE r = 1 -> [st EXCEPT !.facets = Append(fs, en)]
            [] r = 2 /\ fs # <<>> -> [st EXCEPT !.facets = DropAt(fs, Any1(fs))]
            [] r = 3 /\ Len(fs) > 1 -> [st EXCEPT !.facets = SwapAt(fs, Any1(fs), Any1(fs))]
            [] OTHER -> [st EXCEPT !.base = RandBuiltin(d)]
  ELSE IF st.k = "list" /\ st.ty.k = "st" /\ r <= 3 THEN LET s == EditSt(d, st.ty.st) IN IF s.k = "union" THEN st ELSE [st EXCEPT !.ty.st = s]
  ELSE IF st.k = "union" /\ st.sts # <<>> /\ r <= 3 THEN LET i == Any1(st.sts) IN [st EXCEPT !.sts[i] = EditSt(d, st.sts[i])]
  ELSE IF st.k = "union" /\ r <= 4 THEN [st EXCEPT !.qs = Append(st.qs, RandTypeQ(d, ""))]
  ELSE IF r = 5 /\ st.k # "union" THEN [k |-> "list", ty |-> [k |-> "st", st |-> st]]
  ELSE IF r = 6 THEN [k |-> "union", qs |-> <<RandBuiltin(d)>>, sts |-> <<st>>]
  ELSE RandSt(d, 1)

(* a type may be written out in place of its name                            *)
WrittenOut(d, q) ==
  LET t == SelectSeq(d.tops, LAMBDA x : x.k \in {"ct", "st"} /\ InTarget(d, q) /\ ~IsBuiltin(d, q) /\ x.name = Local(q)) IN
  IF t = <<>> THEN [k |-> "q", q |-> RandTypeQ(d, "")]
  ELSE IF t[1].k = "st" THEN [k |-> "st", st |-> t[1].st]
  ELSE [k |-> "ct", ct |-> t[1].ct]

RECURSIVE EditCt(_, _, _)
EditTy(d, self, ty) ==
  IF ty.k = "ct" /\ Chance(3, 4) THEN [ty EXCEPT !.ct = EditCt(d, self, ty.ct)]
  ELSE IF ty.k = "st" /\ Chance(3, 4) THEN [ty EXCEPT !.st = EditSt(d, ty.st)]
  ELSE IF ty.k = "q" /\ Chance(1, 2) THEN WrittenOut(d, ty.q)
  ELSE [k |-> "q", q |-> RandTypeQ(d, self)]
EditPart(d, self, p) ==
  LET r == RandomElement(1..8)
      o == Pick(LegalOccs)
  IN IF p.k = "choice" /\ p.parts # <<>>
     THEN IF r <= 3 THEN [p EXCEPT !.parts = Append(p.parts, RandCase(d))]
          ELSE IF r <= 5 /\ Len(p.parts) > 1 THEN [p EXCEPT !.parts = DropAt(p.parts, Any1(p.parts))]
          ELSE [p EXCEPT !.parts = SwapAt(p.parts, Any1(p.parts), Any1(p.parts))]
     ELSE IF p.k = "ref" /\ r <= 4 THEN [p EXCEPT !.min = o[1], !.max = o[2]]
     ELSE IF p.k = "el"
     THEN CASE r <= 2 -> [p EXCEPT !.min = o[1], !.max = o[2]]
            [] r <= 4 -> [p EXCEPT !.name = OtherName(p.name)]
            [] OTHER  -> [p EXCEPT !.ty = EditTy(d, self, p.ty)]
     ELSE RandPart(d, self, 1)
EditParts(d, self, ps) ==
  LET r == RandomElement(1..10) IN
  IF r <= 5 /\ ps # <<>> THEN LET i == Any1(ps) IN [ps EXCEPT ![i] = EditPart(d, self, ps[i])]
  ELSE IF r = 6 /\ ps # <<>> THEN DropAt(ps, Any1(ps))
  ELSE IF r = 7 /\ ps # <<>> THEN SwapAt(ps, Any1(ps), Any1(ps))
  ELSE IF r = 8 /\ ps # <<>> THEN LET i == Any1(ps) IN
       IF ps[i].k = "el" THEN InsertAt(ps, RandomElement(0..Len(ps)), [ps[i] EXCEPT !.name = OtherName(ps[i].name)]) ELSE ps
  ELSE InsertAt(ps, RandomElement(0..Len(ps)), RandPart(d, self, 1))
PlainAt(d) == [k |-> "at", name |-> Pick(AttNames), ty |-> [k |-> "q", q |-> RandTypeQ(d, "")], use |-> Pick(Uses)]
EditAttrs(d, as) ==
  LET r == RandomElement(1..6) IN
  IF r <= 2 /\ as # <<>>
  THEN LET i == Any1(as) IN IF as[i].k \in {"at", "ref"} THEN [as EXCEPT ![i].use = Pick(Uses)] ELSE as
  ELSE IF r = 3 /\ as # <<>> THEN DropAt(as, Any1(as))
  ELSE IF r = 4 /\ as # <<>> THEN SwapAt(as, Any1(as), Any1(as))
  ELSE InsertAt(as, RandomElement(0..Len(as)), PlainAt(d))
CaseLike(ps) == ps # <<>> /\ \A i \in 1..Len(ps) :
  ps[i].k \in {"ref", "el"} /\ LegalOcc("1", ps[i].max) /\ (ps[i].k = "el" => ps[i].ty.k = "q")
EditCt(d, self, ct) ==
  LET r == RandomElement(1..10)
      model == IF ct.m \in {"ext", "rst"} THEN ct.inner ELSE ct.m
      bs == BaseNames(d, self)
  IN IF r <= 5 /\ model \in {"seq", "all"} THEN [ct EXCEPT !.parts = EditParts(d, self, ct.parts)]
     ELSE IF r <= 5 /\ model = "choice" THEN [ct EXCEPT !.parts = EditPart(d, self, [k |-> "choice", parts |-> ct.parts]).parts]
     ELSE IF r <= 7 THEN [ct EXCEPT !.attrs = EditAttrs(d, ct.attrs)]
     ELSE IF r = 8 /\ ct.m \in {"seq", "all"}
     THEN IF CaseLike(ct.parts) /\ Chance(1, 2) THEN [ct EXCEPT !.m = "choice"] ELSE [ct EXCEPT !.m = IF @ = "seq" THEN "all" ELSE "seq"]
     ELSE IF r = 9 /\ ct.m \in {"seq", "all", "choice", "empty"} /\ bs # {} /\ (Rough \/ self # "")
     THEN [ct EXCEPT !.m = "ext", !.inner = IF ct.m = "empty" \/ ct.parts = <<>> THEN "none" ELSE ct.m, !.base = TnsQ(d, Pick(bs)),
                     !.parts = IF ct.m = "empty" THEN <<>> ELSE @]
     ELSE IF r = 10 /\ ct.m = "ext" /\ ct.inner = "none" THEN [ct EXCEPT !.inner = "seq", !.parts = <<RandPart(d, self, 1)>>]
     ELSE [ct EXCEPT !.attrs = EditAttrs(d, ct.attrs)]
EditTop(d, t) ==
  CASE t.k = "ct" -> [t EXCEPT !.ct = EditCt(d, t.name, t.ct)]
    [] t.k = "st" -> [t EXCEPT !.st = EditSt(d, t.st)]
    [] t.k = "el" /\ t.ty.k = "ct" -> [t EXCEPT !.ty.ct = EditCt(d, t.name, t.ty.ct)]
    [] t.k = "el" /\ t.ty.k = "st" -> [t EXCEPT !.ty.st = EditSt(d, t.ty.st)]
    [] t.k = "el" /\ t.ty.k = "q" -> [t EXCEPT !.ty = WrittenOut(d, t.ty.q)]
    [] t.k = "ag" -> [t EXCEPT !.attrs = EditAttrs(d, t.attrs)]
    [] OTHER -> t

(* ------------------------------------------- other prefixes for the same *)
Requal(d, p, q) == IF Prefix(q) = d.xp THEN IF p.xp = "" THEN Local(q) ELSE p.xp \o ":" \o Local(q)
                   ELSE IF d.tns # "" /\ Prefix(q) = d.tp THEN IF p.tp = "" THEN Local(q) ELSE p.tp \o ":" \o Local(q)
                   ELSE q
RECURSIVE RqSt(_, _, _)
RECURSIVE RqCt(_, _, _)
RqTy(d, p, ty) == CASE ty.k = "q" -> [ty EXCEPT !.q = Requal(d, p, @)]
                    [] ty.k = "ct" -> [ty EXCEPT !.ct = RqCt(d, p, @)]
                    [] ty.k = "st" -> [ty EXCEPT !.st = RqSt(d, p, @)]
                    [] OTHER -> ty
RqSt(d, p, st) ==
  CASE st.k = "rst" -> [st EXCEPT !.base = Requal(d, p, @)]
    [] st.k = "list" -> [st EXCEPT !.ty = RqTy(d, p, @)]
    [] OTHER -> [st EXCEPT !.qs = [i \in 1..Len(st.qs) |-> Requal(d, p, st.qs[i])], !.sts = [i \in 1..Len(st.sts) |-> RqSt(d, p, st.sts[i])]]
RECURSIVE RqPart(_, _, _)
RqPart(d, p, x) ==
  CASE x.k = "el" -> [x EXCEPT !.ty = RqTy(d, p, @)]
    [] x.k = "ref" -> [x EXCEPT !.q = Requal(d, p, @)]
    [] x.k = "choice" -> [x EXCEPT !.parts = [i \in 1..Len(x.parts) |-> RqPart(d, p, x.parts[i])]]
    [] OTHER -> x
RqAt(d, p, a) == CASE a.k = "at" -> [a EXCEPT !.ty = RqTy(d, p, @)]
                   [] a.k \in {"ref", "ag"} -> [a EXCEPT !.q = Requal(d, p, @)]
                   [] OTHER -> a
RqAts(d, p, as) == [i \in 1..Len(as) |-> RqAt(d, p, as[i])]
RqCt(d, p, ct) == [ct EXCEPT !.base = IF @ = "" THEN @ ELSE Requal(d, p, @), !.attrs = RqAts(d, p, @),
                             !.parts = [i \in 1..Len(ct.parts) |-> RqPart(d, p, ct.parts[i])]]
RqTop(d, p, t) ==
  CASE t.k = "ct" -> [t EXCEPT !.ct = RqCt(d, p, @)]
    [] t.k = "st" -> [t EXCEPT !.st = RqSt(d, p, @)]
    [] t.k \in {"el", "at"} -> [t EXCEPT !.ty = RqTy(d, p, @)]
    [] t.k = "ag" -> [t EXCEPT !.attrs = RqAts(d, p, @)]
    [] OTHER -> t
(* unprefixed names must not change what they mean                           *)
Prefixed(d, p) == [d EXCEPT !.xp = p.xp, !.tp = p.tp, !.tops = [i \in 1..Len(d.tops) |-> RqTop(d, p, d.tops[i])]]

(* ----------------------------------------------------------------- machine *)
Init == /\ pc = "write"
        /\ doc \in {Corpus[i] : i \in 1..Len(Corpus)}
        /\ left \in 1..MaxEdits
        /\ cand = doc

Used == {doc.tops[i].name : i \in {j \in 1..Len(doc.tops) : doc.tops[j].k \notin {"import", "include"}}}
Propose ==
  /\ pc = "write" /\ left > 0
  /\ LET r == RandomElement(1..12)
         n == Len(doc.tops) IN
     cand' = CASE n > 0 /\ r <= 8 -> LET i == Any1(doc.tops) IN [doc EXCEPT !.tops[i] = EditTop(doc, doc.tops[i])]
               [] n > 1 /\ r = 9 -> [doc EXCEPT !.tops = SwapAt(doc.tops, Any1(doc.tops), Any1(doc.tops))]
               [] n > 1 /\ r = 10 -> [doc EXCEPT !.tops = DropAt(doc.tops, Any1(doc.tops))]
               [] doc.tns # "" /\ r = 11 -> Prefixed(doc, Pick({[xp |-> "xs", tp |-> "tq"], [xp |-> "", tp |-> "T.x"], [xp |-> "xsd", tp |-> ""], [xp |-> "x2", tp |-> "t-1"]}))
               [] OTHER -> [doc EXCEPT !.tops = InsertAt(doc.tops, RandomElement(0..n), RandTop(doc, RandomElement(TopNames \ Used)))]
  /\ pc' = "review" /\ left' = left - 1
  /\ UNCHANGED doc
Review ==
  /\ pc = "review"
  /\ doc' = IF Rough \/ Supported(cand) THEN cand ELSE doc
  /\ pc' = "write"
  /\ UNCHANGED <<cand, left>>
Finish == /\ pc = "write" /\ left = 0
          /\ pc' = "done"
          /\ UNCHANGED <<doc, cand, left>>
Next == Propose \/ Review \/ Finish
Emit == pc = "done" => ((Rough \/ Supported(doc)) => PrintT("@@" \o ToJson(doc)))
=============================================================================
