------------------------------ MODULE RtWrite ------------------------------
(* Writing documents of schemas: for every schema in the file, every root,   *)
(* documents with the least content, with a lot of it, and random ones.      *)
EXTENDS RoundTrip, Json, IOUtils
CONSTANT PerRoot

Docs == ndJsonDeserialize(IOEnv.DOCS)
Rand(S) == RandomElement(S)
Pool(b) ==
  CASE b \in {"string", "normalizedString", "token", "anyURI"} ->
         {"x", "word", "a b c", "0", "true", "<&>\"'", "é ❤", "a--b", "17.50", "WAITING", "x=1;y=2", "a  b", "&amp;"} \ (IF b = "token" THEN {"a  b"} ELSE IF b = "anyURI" THEN {"<&>\"'", "a b c", "a  b", "é ❤"} ELSE {})
    [] b \in {"Name", "NCName", "ID", "IDREF", "ENTITY", "NMTOKEN", "QName", "NOTATION"} -> {"x", "a-b.c_d", "Éa", "true", "_1"}
    [] b = "language" -> {"en", "de-CH", "x"}
    [] b = "hexBinary" -> {"00", "DEADBEEF", "0a"}
    [] b = "base64Binary" -> {"AA==", "SGVsbG8gV29ybGQ=", "YQ=="}
    [] b = "boolean" -> {"true", "false", "1", "0"}
    [] b \in {"integer"} -> {"0", "-1", "+12", "123456789012345678901234567890", "007", "-99999999999999999999"}
    [] b = "nonNegativeInteger" -> {"0", "1", "+12", "123456789012345678901234567890", "007"}
    [] b = "positiveInteger" -> {"1", "+12", "123456789012345678901234567890", "007"}
    [] b = "nonPositiveInteger" -> {"0", "-1", "-123456789012345678901234567890", "-007"}
    [] b = "negativeInteger" -> {"-1", "-123456789012345678901234567890", "-007"}
    [] b \in DOMAIN Machine -> {Machine[b][1], Machine[b][2], "1", "42", "007", "+5", "100"}
    [] b = "decimal" -> {"0", "1.5", "-0.001", "+12.50", ".5", "100", "-7.", "123456789012345678901234567890.123456789"}
    [] b \in Floats -> {"0", "1.5", "-0.25", "100", "3.0", "+2.5", "-17"}
    [] b = "date" -> {"2024-02-29", "1999-12-31Z", "2000-01-01+05:30", "0001-01-01", "9999-12-31-14:00"}
    [] b = "time" -> {"00:00:00", "23:59:59.5", "12:30:00Z", "01:02:03.004-07:00"}
    [] b = "dateTime" -> {"2024-02-29T12:00:00", "1999-12-31T23:59:59.999Z", "2000-01-01T00:00:00+05:30", "1969-07-20T20:17:40.000001-04:00"}
    [] b = "dateTimeStamp" -> {"1999-12-31T23:59:59.999Z", "2000-01-01T00:00:00+05:30"}
    [] b = "duration" -> {"P1Y2M3DT4H5M6S", "PT0.5S", "-P1D", "PT36H", "P1M", "P0D"}
    [] b = "gYear" -> {"2024", "-0044", "1999Z", "0001+14:00"}
    [] b = "gYearMonth" -> {"2024-02", "1999-12Z", "-0044-03+01:00"}
    [] b = "gMonth" -> {"--01", "--12Z", "--06-05:00"}
    [] b = "gMonthDay" -> {"--02-29", "--12-31Z", "--06-01+05:30"}
    [] b = "gDay" -> {"---01", "---31Z", "---15-05:00"}
    [] OTHER -> {"x"}
(* What facets ask of a value.                                               *)
LowLetters == {LowerChars[i] : i \in 1..Len(LowerChars)}
Meets(f, s) ==
  CASE f.f = "minLength" -> Len(s) >= Fac!Num(f.v)
    [] f.f = "maxLength" -> Len(s) <= Fac!Num(f.v)
    [] f.f = "length" -> Len(s) = Fac!Num(f.v)
    [] f.f = "pattern" -> CASE f.v = "[0-9]*" -> \A i \in 1..Len(s) : Ch(s, i) \in Digits
                            [] f.v = "[a-z]*" -> \A i \in 1..Len(s) : Ch(s, i) \in LowLetters
                            [] OTHER -> TRUE
    [] OTHER -> TRUE
More == {"abcdefgh", "xyzwvuts", "a", "z", "123", "7", "12345678", ""}
RECURSIVE AllFacets(_, _)
AllFacets(doc, T) == IF T.k = "bi" THEN <<>> ELSE T.st.facets \o AllFacets(doc, QType(doc, T.st.base))
PoolOf(doc, T) ==
  LET b == Bottom(doc, T)
      fs == AllFacets(doc, T)
      all == Pool(b) \cup (IF fs # <<>> THEN {s \in More : InBuiltin(b, s)} ELSE {})
  IN {s \in all : \A i \in 1..Len(fs) : Meets(fs[i], s)}
NoSpace(s) == \A i \in 1..Len(s) : Ch(s, i) # " "
RECURSIVE Joined(_)
Joined(ws) == IF ws = <<>> THEN "" ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o Rand({" ", "  ", " "}) \o Joined(Tail(ws))
RandText(doc, T, size) ==
  IF T.k = "bi" THEN Rand(PoolOf(doc, T))
  ELSE CASE IsEnumeration(T.st) -> Rand(Range(EnumValues(T.st)))
         [] T.st.k = "rst" -> Rand(PoolOf(doc, T))
         [] T.st.k = "list" -> LET W == {s \in PoolOf(doc, ItemType(doc, T.st)) : NoSpace(s) /\ s # ""}
                                   n == IF size = "least" THEN 0 ELSE IF size = "much" THEN 3 ELSE TLCEval(Rand(0..4))
                               IN Joined([i \in 1..n |-> Rand(W)])
         [] OTHER -> LET ms == UnionMembers(doc, T.st) IN Rand(PoolOf(doc, ms[Rand(1..Len(ms))].ty))
(* Every simple type needs a text.                                           *)
RECURSIVE Textual(_, _)
Textual(doc, T) == CASE T.k = "bi" -> TRUE
                     [] T.st.k = "rst" -> IsEnumeration(T.st) \/ PoolOf(doc, T) # {}
                     [] T.st.k = "list" -> \E s \in PoolOf(doc, ItemType(doc, T.st)) : NoSpace(s) /\ s # ""
                     [] OTHER -> LET ms == UnionMembers(doc, T.st) IN \A i \in 1..Len(ms) : PoolOf(doc, ms[i].ty) # {}

(* w: may spaces be added around the text?                                   *)
Tree(n, ns, a, k, t, w) == [n |-> n, ns |-> ns, a |-> a, k |-> k, t |-> t, w |-> w]
Collapses(doc, T) == T.k = "bi" \/ T.st.k = "rst"
Roomy(doc, T) == IF Collapses(doc, T) THEN Bottom(doc, T) \notin {"string", "normalizedString"} ELSE T.st.k = "list"
RECURSIVE Shuffled(_)
Shuffled(s) == IF Len(s) < 2 THEN s ELSE LET i == TLCEval(Rand(1..Len(s))) IN <<s[i]>> \o Shuffled(SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)))
NumOf(o) == LET b == Bare(o) IN IF b = "" THEN 1 ELSE Fac!Num(b)
CountOf(p, size) ==
  LET lo == NumOf(p.min)
      hi == IF Bare(p.max) = "unbounded" THEN lo + 3 ELSE LET h == NumOf(p.max) IN IF h > lo + 3 THEN lo + 3 ELSE h
  IN CASE size = "least" -> lo [] size = "much" -> hi [] OTHER -> Rand(lo..hi)
RECURSIVE RandTree(_, _, _, _, _)
RECURSIVE RandKids(_, _, _, _, _)
RandAttrs(doc, ct, size) ==
  LET as == SelectSeq(Attrs(doc, ct), LAMBDA a : /\ a.use # "prohibited"
                                                 /\ a.use = "required" \/ size = "much" \/ (size = "some" /\ Rand(1..2) = 1))
  IN [i \in 1..Len(as) |-> [n |-> as[i].name, ns |-> "", v |-> RandText(doc, AttrType(doc, as[i]), IF size = "least" THEN "some" ELSE size)]]
OnePart(doc, self, p, size, d) ==
  LET n == TLCEval(CountOf(p, size))
      m == IF SelfPart(doc, self, p) /\ d = 0 THEN 0 ELSE IF d < 2 /\ n > 2 /\ NumOf(p.min) < 2 THEN 2 ELSE n
      T == PartType(doc, p)
  IN [i \in 1..m |-> RandTree(doc, PartName(p), T, size, IF d = 0 THEN 0 ELSE d - 1)]
RandKids(doc, T, size, d, mode) ==
  LET ct == T.ct
      parts == ct.parts
      own == CASE mode \in {"empty", "none"} -> <<>>
               [] mode = "choice" -> LET j == TLCEval(Rand(1..Len(parts))) IN OnePart(doc, T.name, parts[j], size, d)
               [] OTHER -> LET ps == TLCEval(IF mode = "all" THEN Shuffled(parts) ELSE parts) IN
                           Concat([i \in 1..Len(ps) |->
                             CASE ps[i].k = "any" -> <<>>
                               [] ps[i].k = "choice" -> LET j == TLCEval(Rand(1..Len(ps[i].parts))) IN OnePart(doc, T.name, ps[i].parts[j], size, d)
                               [] OTHER -> OnePart(doc, T.name, ps[i], size, d)])
  IN IF ct.m = "ext"
     THEN LET b == [k |-> "ct", ct |-> BaseCt(doc, ct), name |-> Local(ct.base)] IN
          RandKids(doc, b, size, d, IF b.ct.m = "ext" THEN b.ct.inner ELSE b.ct.m) \o own
     ELSE own
RandTree(doc, n, T, size, d) ==
  IF T.k = "ct" THEN Tree(n, doc.tns, RandAttrs(doc, T.ct, size), RandKids(doc, T, size, d, IF T.ct.m = "ext" THEN T.ct.inner ELSE T.ct.m), "", FALSE)
  ELSE Tree(n, doc.tns, <<>>, <<>>, RandText(doc, T, size), Roomy(doc, T))

RootType(doc, t) == CASE t.k = "ct" -> [k |-> "ct", ct |-> t.ct, name |-> t.name]
                      [] t.k = "st" -> [k |-> "st", st |-> t.st]
                      [] OTHER -> TypeOf(doc, t.ty)
Roots(doc) == {i \in 1..Len(doc.tops) : doc.tops[i].k \in {"ct", "st"} \/ (doc.tops[i].k = "el" /\ doc.tops[i].ty.k \in {"ct", "st"})}
SimpleTypes(doc) == {RootType(doc, doc.tops[i]) : i \in {j \in Roots(doc) : RootType(doc, doc.tops[j]).k = "st"}}
(* Anonymous simple types have texts too: the pools are wide enough, except  *)
(* for lengths; a document without a text is left out.                       *)
RECURSIVE CtTextual(_, _)
TyTextual(doc, ty) == CASE ty.k = "st" -> Textual(doc, [k |-> "st", st |-> ty.st]) [] ty.k = "ct" -> CtTextual(doc, ty.ct) [] OTHER -> TRUE
CtTextual(doc, ct) == \A i \in 1..Len(ct.parts) :
  CASE ct.parts[i].k = "el" -> TyTextual(doc, ct.parts[i].ty)
    [] OTHER -> TRUE
Writable(doc) == /\ \A T \in SimpleTypes(doc) : Textual(doc, T)
                 /\ \A i \in Roots(doc) : LET T == RootType(doc, doc.tops[i]) IN T.k = "ct" => CtTextual(doc, T.ct)

VARIABLES l, root, trees
Init == l \in 1..Len(Docs) /\ root = 0 /\ trees = <<>>
Size(i) == IF i = 1 THEN "least" ELSE IF i = 2 THEN "much" ELSE "some"
Next == /\ root = 0 /\ (Runs(Docs[l]) /\ Writable(Docs[l])) = TRUE
        /\ \E i \in Roots(Docs[l]) :
             LET doc == Docs[l]
                 top == doc.tops[i]
             IN /\ root' = i
                /\ trees' = [j \in 1..PerRoot |-> RandTree(doc, top.name, RootType(doc, top), Size(j), 3)]
        /\ UNCHANGED l
(* Every document written is one of the schema, and the same as itself.      *)
Sound(doc, T, t) == ValidTree(doc, T, t) /\ Differ(doc, T, t, t) = {}
Emit == (root # 0) =>
  LET doc == Docs[l]
      top == doc.tops[root]
      T == RootType(doc, top)
  IN /\ \A i \in 1..PerRoot : Sound(doc, T, trees[i])
     /\ PrintT("@@" \o ToJson([line |-> l, root |-> root, ident |-> TypeIdent(top.name),
                               trees |-> SelectSeq(trees, LAMBDA t : Readable(doc, T, t, TRUE))]))
=============================================================================
