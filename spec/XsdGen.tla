------------------------------ MODULE XsdGen -------------------------------
(* Random schema documents: a schema is written component by component.     *)
(* Every component may refer to those written before, to itself, and to     *)
(* ones that come later.                                                    *)
EXTENDS XsdDomain

TopNames == {"Foo", "fooBar", "baz", "Device-Info", "x_y", "IPAddress", "type", "self", "Zed9",
             "a2b", "HTTPPort", "OSD", "Move", "under_", "node.id", "_lead", "Struct", "T1", "BAR", "Tns", "xsd", "_4", "Éléa", "müX"}
MemNames == {"a", "b", "bType", "fooBar", "Item", "item2", "ID", "Id-x", "type", "ref", "match",
             "HTTPPort", "xAddr", "try", "async", "_u", "m.n", "MAX", "x1y", "C3PO", "loop", "été", "x日Y"}
AttNames == {"at", "Token", "lang-x", "use", "fn", "IPv4", "dyn", "attrB", "Q", "name", "value", "c-d"}
EnumVals == {"One", "two", "THREE", "x-y", "4G", "In", "self", "Self", "10", "a1b2", "fooBar", "UDP", "type", "-neg", "entrée", "Full-Duplex", "Ж1"}
Bounds   == {"", "0", "1", "2", "7", "256", "unbounded"}
MinB     == {"", "0", "1", "2"}
Uses     == {"", "optional", "required", "prohibited"}
BuiltinNames == DOMAIN Builtins
Others   == {"soap-env:Body", "o:Thing", "ext:fooType", "o:simple-val"}

LegalOccs == {o \in MinB \X Bounds : LegalOcc(o[1], o[2])}
AltOccs == {o \in LegalOccs : o[2] # "0"}       \* an alternative may be chosen
Pick(S) == RandomElement(S)
Chance(n, d) == RandomElement(1..d) <= n
RandSeq(lo, hi, f(_)) == LET n == RandomElement(lo..hi) IN [i \in 1..n |-> f(i)]

XsdQ(doc, n) == IF doc.xp = "" THEN n ELSE doc.xp \o ":" \o n
TnsQ(doc, n) == IF doc.tns = "" \/ doc.tp = "" THEN n ELSE doc.tp \o ":" \o n

RandBeside(kind, rec) ==
  IF Chance(1, 8) THEN rec @@ [aside |-> LET a == Pick(AsidesOf(kind)) b == Pick(AsidesOf(kind)) IN
                                         IF a.n = b.n \/ Chance(2, 3) THEN <<a>> ELSE <<a, b>>]
  ELSE rec

NamesOf(doc, kinds) == {doc.tops[i].name : i \in {j \in 1..Len(doc.tops) : doc.tops[j].k \in kinds}}

RandBuiltin(doc) == XsdQ(doc, Pick(BuiltinNames))
(* a reference to a type: a built-in one, one of this schema (maybe self),  *)
(* or one of another namespace                                              *)
RandTypeQ(doc, self) ==
  LET r == RandomElement(1..10)
      local == NamesOf(doc, {"ct", "st"}) \cup (IF self = "" THEN {} ELSE {self})
  IN IF r <= 5 \/ (r <= 8 /\ local = {}) THEN RandBuiltin(doc)
     ELSE IF r <= 8 THEN TnsQ(doc, Pick(local))
     ELSE Pick(Others)

RandFacets(doc) ==
  IF Chance(1, 2)
  THEN LET n == RandomElement(1..4) IN
       LET vs == [i \in 1..n |-> Pick(EnumVals)] IN
       [i \in 1..n |-> RandBeside("facet", [f |-> "enumeration", v |-> vs[i]])]
  ELSE IF Chance(1, 2) THEN <<>>
  ELSE <<[f |-> Pick({"minLength", "maxLength", "length"}), v |-> Pick({"0", "1", "8"})],
         [f |-> "pattern", v |-> "[a-z]*"]>>

RECURSIVE RandSt(_, _)
RandSt(doc, depth) ==
  LET r == RandomElement(1..6) IN RandBeside("st",
  IF r <= 3 \/ depth = 0 THEN [k |-> "rst", base |-> XsdQ(doc, Pick({"string", "token", "NMTOKEN"})), facets |-> RandFacets(doc)]
  ELSE IF r <= 4
  THEN [k |-> "list", ty |-> IF Chance(1, 2) THEN [k |-> "q", q |-> RandTypeQ(doc, "")]
                             ELSE LET s == RandSt(doc, depth - 1) IN
                                  [k |-> "st", st |-> IF s.k = "union" THEN [k |-> "list", ty |-> [k |-> "q", q |-> RandBuiltin(doc)]] ELSE s]]
  ELSE [k |-> "union", qs |-> RandSeq(0, 3, LAMBDA i : RandTypeQ(doc, "")),
        sts |-> RandSeq(0, 2, LAMBDA i : [k |-> "rst", base |-> XsdQ(doc, "string"), facets |-> RandFacets(doc)])])

RandAt(doc) ==
  LET r == RandomElement(1..10) IN
  IF r <= 6 THEN RandBeside("at", [k |-> "at", name |-> Pick(AttNames), ty |-> IF Chance(4, 5) THEN [k |-> "q", q |-> RandTypeQ(doc, "")] ELSE NoTy, use |-> Pick(Uses)])
  ELSE IF r <= 7 THEN RandBeside("atref", [k |-> "ref", q |-> Pick({"xml:lang", "o:attr", "ext:mime-Type", "tX:at", "w3:b", "a-B.c:d"}), use |-> Pick(Uses)])
  ELSE IF r <= 8 /\ Chance(1, 8) THEN [k |-> "ag", q |-> Pick({"o:Far", "ext:far-Group", "tX:G"})]
  ELSE IF r <= 8 /\ NamesOf(doc, {"ag"}) # {} THEN [k |-> "ag", q |-> TnsQ(doc, Pick(NamesOf(doc, {"ag"})))]
  ELSE [k |-> "at", name |-> Pick(AttNames), ty |-> [k |-> "q", q |-> RandBuiltin(doc)], use |-> Pick(Uses)]

(* anyAttribute comes last                                                  *)
RandAts(doc, hi) == LET s == RandSeq(0, hi, LAMBDA i : RandAt(doc))
                    IN IF Chance(1, 6) THEN Append(s, [k |-> "any"]) ELSE s

RECURSIVE RandCt(_, _, _)
RandPart(doc, self, depth) ==
  LET r == RandomElement(1..12)
      o == Pick(LegalOccs)
      occ == [min |-> o[1], max |-> o[2]]
  IN RandBeside(IF r <= 10 THEN "el" ELSE IF r = 11 THEN "ref" ELSE "any",
     IF r <= 6 \/ (depth = 0 /\ r <= 10)
     THEN [k |-> "el", name |-> Pick(MemNames), ty |-> [k |-> "q", q |-> RandTypeQ(doc, self)], min |-> occ.min, max |-> occ.max]
     ELSE IF r <= 8
     THEN [k |-> "el", name |-> Pick(MemNames), ty |-> [k |-> "ct", ct |-> RandCt(doc, "", depth - 1)], min |-> occ.min, max |-> occ.max]
     ELSE IF r <= 10
     THEN [k |-> "el", name |-> Pick(MemNames), ty |-> [k |-> "st", st |-> RandSt(doc, 1)], min |-> occ.min, max |-> occ.max]
     ELSE IF r = 11
     THEN [k |-> "ref", q |-> Pick({"o:Thing", "ext:fooType", "tX:Bar", "a-B.c:Foo"}), min |-> occ.min, max |-> occ.max]
     ELSE [k |-> "any"])
RandCase(doc) ==
  LET r == RandomElement(1..6)
      o == Pick(AltOccs)
  IN RandBeside(IF r <= 5 THEN "el" ELSE "ref",
     IF r <= 5 THEN [k |-> "el", name |-> Pick(MemNames), ty |-> [k |-> "q", q |-> RandTypeQ(doc, "")], min |-> o[1], max |-> o[2]]
     ELSE [k |-> "ref", q |-> Pick({"o:Thing", "ext:fooType", "tX:Bar", "a-B.c:Foo"}), min |-> o[1], max |-> o[2]])
RandChoice(doc) == RandSeq(1, 3, LAMBDA i : RandCase(doc))
RandSeqParts(doc, self, depth) ==
  LET s == RandSeq(0, 4, LAMBDA i : RandPart(doc, self, depth)) IN
  IF Chance(1, 5) THEN LET c == <<[k |-> "choice", parts |-> RandChoice(doc)]>> IN
                       IF Chance(1, 2) THEN s \o c ELSE c \o s
  ELSE s
RandCt(doc, self, depth) ==
  LET r == RandomElement(1..12)
      plain(m, parts) == [m |-> m, inner |-> "none", base |-> "", parts |-> parts, attrs |-> RandAts(doc, 3)]
      bases == NamesOf(doc, {"ct"})
  IN RandBeside("ct",
     IF r <= 4 THEN plain("seq", RandSeqParts(doc, self, depth))
     ELSE IF r <= 5 THEN plain("all", RandSeq(0, 3, LAMBDA i : RandPart(doc, self, depth)))
     ELSE IF r <= 6 THEN plain("choice", RandChoice(doc))
     ELSE IF r <= 7 THEN plain("empty", <<>>)
     ELSE IF r <= 8 THEN [plain("sext", <<>>) EXCEPT !.base = RandBuiltin(doc)]
     ELSE IF bases = {} THEN plain("seq", RandSeqParts(doc, self, depth))
     ELSE LET inner == Pick({"none", "seq", "all", "choice"}) IN
          [plain("ext", CASE inner = "none" -> <<>>
                          [] inner = "choice" -> RandChoice(doc)
                          [] inner = "all" -> RandSeq(1, 3, LAMBDA i : RandPart(doc, self, depth))
                          [] OTHER -> RandSeqParts(doc, self, depth))
           EXCEPT !.inner = inner, !.base = IF Chance(1, 12) THEN "o:ForeignBase" ELSE TnsQ(doc, Pick(bases))])

RandTop(doc, name) ==
  LET r == RandomElement(1..20) IN
  IF r <= 9 THEN [k |-> "ct", name |-> name, ct |-> RandCt(doc, name, 2)]
  ELSE IF r <= 13 THEN [k |-> "st", name |-> name, st |-> RandSt(doc, 2)]
  ELSE IF r <= 15 THEN RandBeside("top", [k |-> "el", name |-> name, ty |-> [k |-> "ct", ct |-> RandCt(doc, name, 1)]])
  ELSE IF r <= 16 THEN RandBeside("top", [k |-> "el", name |-> name, ty |-> IF Chance(1, 2) THEN [k |-> "st", st |-> RandSt(doc, 1)] ELSE [k |-> "q", q |-> RandTypeQ(doc, "")]])
  ELSE IF r <= 18 THEN [k |-> "ag", name |-> name, attrs |-> RandAts(doc, 3)]
  ELSE IF r <= 19 THEN RandBeside("topat", [k |-> "at", name |-> name, ty |-> IF Chance(1, 2) THEN [k |-> "st", st |-> RandSt(doc, 0)] ELSE [k |-> "q", q |-> RandTypeQ(doc, "")]])
  ELSE IF Chance(1, 2) THEN [k |-> "import", name |-> "", ns |-> "urn:other:o", loc |-> "o.xsd"]
  ELSE [k |-> "include", name |-> "", loc |-> "more.xsd"]

Prefixes == {[xp |-> "xs", tp |-> "tns", tns |-> "http://example.com/t"],
             [xp |-> "xsd", tp |-> "tt", tns |-> "urn:x:y"],
             [xp |-> "", tp |-> "tns", tns |-> "http://example.com"],
             [xp |-> "xs", tp |-> "", tns |-> "http://example.com/d"],
             [xp |-> "xs", tp |-> "", tns |-> ""]}
=============================================================================
