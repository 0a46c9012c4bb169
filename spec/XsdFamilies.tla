--------------------------- MODULE XsdFamilies ------------------------------
(* Families of schema documents, each enumerated completely: the small       *)
(* scopes in which a property is model checked on the specification          *)
(* (XsdProps) and replayed on the real code.                                 *)
EXTENDS XsdDomain

CONSTANT Deep          \* FALSE: the scopes of the quick checks; TRUE: larger ones

Pfx == << [xp |-> "xs", tp |-> "tns", tns |-> "http://example.com/t"],
          [xp |-> "xsd", tp |-> "tt", tns |-> "urn:x:y"],
          [xp |-> "", tp |-> "tns", tns |-> "http://example.com"],
          [xp |-> "xs", tp |-> "", tns |-> "http://example.com/d"],
          [xp |-> "xs", tp |-> "", tns |-> ""],
          [xp |-> "s", tp |-> "types", tns |-> "urn:p"] >>
AllPfx == Range(Pfx)
TwoPfx == {Pfx[1], Pfx[3]}

Doc(p, tops) == [xp |-> p.xp, tp |-> p.tp, tns |-> p.tns, tops |-> tops]
Xq(p, n) == IF p.xp = "" THEN n ELSE p.xp \o ":" \o n
Tq(p, n) == IF p.tns = "" \/ p.tp = "" THEN n ELSE p.tp \o ":" \o n

SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}

Q(q) == [k |-> "q", q |-> q]
Bi(p, n) == Q(Xq(p, n))
El(name, ty, min, max) == [k |-> "el", name |-> name, ty |-> ty, min |-> min, max |-> max]
El1(name, ty) == El(name, ty, "", "")
Ref(q, min, max) == [k |-> "ref", q |-> q, min |-> min, max |-> max]
AnyPart == [k |-> "any"]
ChoiceP(parts) == [k |-> "choice", parts |-> parts]
At(name, ty, use) == [k |-> "at", name |-> name, ty |-> ty, use |-> use]
AtRef(q, use) == [k |-> "ref", q |-> q, use |-> use]
Ag(q) == [k |-> "ag", q |-> q]
Ct(m, parts, attrs) == [m |-> m, inner |-> "none", base |-> "", parts |-> parts, attrs |-> attrs]
CtX(m, inner, base, parts, attrs) == [m |-> m, inner |-> inner, base |-> base, parts |-> parts, attrs |-> attrs]
TopCt(name, ct) == [k |-> "ct", name |-> name, ct |-> ct]
TopSt(name, st) == [k |-> "st", name |-> name, st |-> st]
TopEl(name, ty) == [k |-> "el", name |-> name, ty |-> ty]
TopAt(name, ty) == [k |-> "at", name |-> name, ty |-> ty]
TopAg(name, attrs) == [k |-> "ag", name |-> name, attrs |-> attrs]
TyCt(ct) == [k |-> "ct", ct |-> ct]
TySt(st) == [k |-> "st", st |-> st]
Rst(base, facets) == [k |-> "rst", base |-> base, facets |-> facets]
Enum(p, vs) == Rst(Xq(p, "string"), [i \in 1..Len(vs) |-> [f |-> "enumeration", v |-> vs[i]]])
List(ty) == [k |-> "list", ty |-> ty]
Union(qs, sts) == [k |-> "union", qs |-> qs, sts |-> sts]

(***************************************************************************)
(* Cardinality: every pair of bounds on every kind of member, every use.    *)
(***************************************************************************)
Mins == {"", "0", "1", "2"} \cup (IF Deep THEN {"3", "10", "17"} ELSE {"10"})
Maxs == {"", "0", "1", "2", "unbounded"} \cup (IF Deep THEN {"3", "10", "999"} ELSE {"10"})
\* numbers of any size, and other ways to write them
BigMins == {"0", "1", "00", "01", " 1", "255", "256", "65536", "4294967296", "18446744073709551616"}
BigMaxs == {"0", "00", "01", " 1", "+0", "002", " unbounded ", "127", "128", "255", "256", "257", "512", "1000", "1024", "32768", "65535", "65536", "65537",
            "2147483648", "4294967296", "4294967297", "18446744073709551616", "99999999999999999999999"}
BigCard(p, min, max) ==
  { <<TopCt("T", Ct("seq", <<El("a", Bi(p, "int"), min, max), Ref("o:thing", min, max)>>, <<>>))>> }
  \cup IF max \in {"0", "00", "+0"} THEN {} ELSE
  { <<TopCt("T", Ct("choice", <<El1("z", Bi(p, "int")), El("a", Bi(p, "int"), min, max)>>, <<>>))>> }
CardEls(p, min, max) ==
  { <<TopCt("T", Ct(m, <<el>>, <<>>))>> :
      m \in {"seq", "all"},
      el \in {El("a", Bi(p, "int"), min, max), El("a", Q(Tq(p, "T")), min, max),
              El("a", TyCt(Ct("seq", <<>>, <<>>)), min, max),
              El("a", TySt(Enum(p, <<"One">>)), min, max),
              El("a", TySt(List(Bi(p, "int"))), min, max),
              El("a", Q("o:Thing"), min, max), El("a", Bi(p, "NMTOKENS"), min, max),
              Ref("o:thing", min, max)} }
  \cup
  { <<TopEl("E", TyCt(Ct("seq", <<El("a", TyCt(Ct("seq", <<El("b", Bi(p, "string"), min, max)>>, <<>>)), min, max)>>, <<>>)))>>,
    <<TopCt("B", Ct("seq", <<El("a", Bi(p, "date"), min, max)>>, <<>>)),
      TopCt("T", CtX("ext", "seq", Tq(p, "B"), <<El("b", Q("o:Thing"), min, max)>>, <<>>))>> }
CardCases(p, min, max) ==
  { <<TopCt("T", Ct("choice", <<El1("z", Bi(p, "int")), c>>, <<>>))>> :
      c \in {El("a", Bi(p, "int"), min, max), Ref("o:thing", min, max), El("a", Q(Tq(p, "T")), min, max)} }
  \cup
  { <<TopCt("T", Ct("seq", <<El1("z", Bi(p, "int")), ChoiceP(<<El("a", Bi(p, "string"), min, max)>>)>>, <<>>))>> }
CardAts(p, use) ==
  { <<TopCt("T", Ct(m, <<>>, <<at>>))>> :
      m \in {"empty", "seq"},
      at \in {At("a", Bi(p, "int"), use), At("a", NoTy, use), AtRef("o:thing", use), At("a", Bi(p, "NMTOKENS"), use),
              At("a", TySt(Rst(Xq(p, "string"), <<>>)), use)} }
  \cup
  { <<TopAg("G", <<At("a", Bi(p, "int"), use)>>), TopCt("T", Ct("empty", <<>>, <<Ag(Tq(p, "G"))>>))>>,
    <<TopCt("T", CtX("ext", "seq", Tq(p, "B"), <<>>, <<At("a", Bi(p, "int"), use)>>)),
      TopCt("B", Ct("empty", <<>>, <<At("b", Bi(p, "int"), use)>>))>>,
    <<TopCt("T", CtX("sext", "none", Xq(p, "int"), <<>>, <<At("a", Bi(p, "int"), use)>>))>>,
    <<TopCt("T", CtX("ext", "none", Tq(p, "B"), <<>>, <<At("a", Bi(p, "int"), use)>>)),
      TopCt("B", Ct("choice", <<El1("b", Bi(p, "int"))>>, <<At("c", Bi(p, "int"), use)>>))>> }

\* references to what this schema defines, and to the very element they are in
CardRefs(p, min, max) ==
  LET thing == TopEl("thing", TyCt(Ct("seq", <<El1("k", Bi(p, "int"))>>, <<>>)))
      kind == TopEl("Kind", TySt(Enum(p, <<"a", "b">>)))
      sub == Ref(Tq(p, "thing"), min, max)
      two == <<sub, Ref(Tq(p, "Kind"), min, max)>> IN
  UNION { {<<thing, kind, TopCt("T", Ct(m, two, <<>>))>>, <<kind, TopEl("E", TyCt(Ct(m, <<El1("k", Bi(p, "int")), Ref(Tq(p, "E"), min, max)>>, <<>>)))>>,
           <<TopEl("E", TyCt(Ct("seq", <<El("in", TyCt(Ct(m, two, <<>>)), "0", "2"), El1("own", Bi(p, "int"))>>, <<>>))), thing, kind>>} : m \in {"seq", "all"} }
  \cup { <<TopCt("D", CtX("ext", "seq", Tq(p, "B"), two, <<>>)), TopCt("B", Ct("seq", <<El1("z", Bi(p, "int"))>>, <<>>)), thing, kind>>,
         <<TopCt("D", CtX("ext", "seq", Tq(p, "B"), <<El1("z", Bi(p, "int"))>>, <<>>)), TopCt("B", Ct("seq", two, <<>>)), thing, kind>> }
  \cup (IF max = "0" THEN {} ELSE
       { <<thing, kind, TopCt("T", Ct("choice", two \o <<Ref("o:other", min, max)>>, <<>>))>>,
         <<TopEl("E", TyCt(Ct("seq", <<El1("z", Bi(p, "int")), ChoiceP(two)>>, <<>>))), kind, thing>> })
CardAtRefs(p, use) ==
  LET at == TopAt("att", TySt(Enum(p, <<"a", "b">>)))
      ref == AtRef(Tq(p, "att"), use) IN
  { <<at, TopCt("T", Ct("empty", <<>>, <<ref>>))>>, <<TopCt("T", CtX("sext", "none", Xq(p, "int"), <<>>, <<ref>>)), at>>,
    <<TopAg("G", <<ref, At("b", NoTy, use)>>), at, TopCt("T", Ct("seq", <<El1("k", Bi(p, "int"))>>, <<Ag(Tq(p, "G"))>>))>>,
    <<TopCt("D", CtX("ext", "none", Tq(p, "B"), <<>>, <<At("c", NoTy, use)>>)), TopCt("B", Ct("empty", <<>>, <<ref>>)), at>> }
CardFamily(deep) ==
  UNION { {Doc(p, t) : t \in CardRefs(p, b[1], b[2])} : p \in TwoPfx \cup {Pfx[4], Pfx[5]}, b \in {<<"", "">>, <<"0", "">>, <<"0", "unbounded">>, <<"1", "3">>, <<"0", "0">>} }
  \cup
  UNION { {Doc(p, t) : t \in CardAtRefs(p, use)} : p \in TwoPfx \cup {Pfx[4], Pfx[5]}, use \in {"", "optional", "required", "prohibited"} }
  \cup
  UNION { {Doc(p, t) : t \in CardEls(p, b[1], b[2])
                               \cup (IF b[2] = "0" THEN {} ELSE CardCases(p, b[1], b[2]))}
            : p \in TwoPfx, b \in {o \in Mins \X Maxs : LegalOcc(o[1], o[2])} }
  \cup
  UNION { {Doc(p, t) : t \in BigCard(p, b[1], b[2])}
            : p \in TwoPfx, b \in {o \in (BigMins \X BigMaxs) \cup (BigMins \X {"", "unbounded", "1"}) \cup ({"", "1", "2"} \X BigMaxs) : LegalOcc(o[1], o[2])} }
  \cup
  UNION { {Doc(p, t) : t \in CardAts(p, use)} : p \in TwoPfx, use \in {"", "optional", "required", "prohibited"} }

(***************************************************************************)
(* Members: every short sequence of parts and attributes, in every kind of  *)
(* content, at every place.                                                 *)
(***************************************************************************)
OtherPrefix(n) == CASE n = "1" -> "tX" [] n = "2" -> "o" [] n = "3" -> "w3" [] OTHER -> "a-b.C"
MPart(p, n, c) == CASE c = "el"  -> El("e" \o n, Bi(p, "string"), "0", "")
                    [] c = "ref" -> Ref(OtherPrefix(n) \o ":r-" \o n, "", "unbounded")
                    [] c = "any" -> AnyPart
                    [] c = "no"  -> El("N" \o n, Bi(p, "int"), "0", "0")
                    [] c = "ct"  -> El("n-" \o n, TyCt(Ct("seq", <<El1("x", Bi(p, "int"))>>, <<At("y", NoTy, "")>>)), "", "")
                    [] c = "ch"  -> ChoiceP(<<El1("p", Bi(p, "int")), El1("q", Bi(p, "int"))>>)
MAttr(p, n, c) == CASE c = "at"  -> At("At" \o n, Bi(p, "string"), "")
                    [] c = "ref" -> AtRef(OtherPrefix(n) \o ":at-" \o n, "required")
                    [] c = "no"  -> At("an" \o n, NoTy, "prohibited")
                    [] c = "ag"  -> Ag(Tq(p, "G" \o n))
                    [] c = "far" -> Ag(OtherPrefix(n) \o ":Far" \o n)      \* of another schema: nothing is known of it
MOk(s) == Cardinality({i \in 1..Len(s) : s[i] = "ch"}) <= 1
MDocs(p, ps, as, any) ==
  LET parts == [i \in 1..Len(ps) |-> MPart(p, ToString(i), ps[i])]
      attrs == [i \in 1..Len(as) |-> MAttr(p, ToString(i), as[i])] \o any
      gs == <<TopAg("G1", <<At("g1", Bi(p, "int"), ""), At("g-2", Bi(p, "int"), "required")>>),
              TopAg("G2", <<Ag(Tq(p, "G1")), At("h", NoTy, "")>>)>>
      base == TopCt("Base", Ct("seq", <<El1("b1", Bi(p, "int"))>>, <<At("b2", NoTy, "")>>))
      \* two groups that overlap are not used together
      both == \E i, j \in 1..Len(as) : i # j /\ as[i] = "ag" /\ as[j] = "ag"
      ct == Ct("seq", parts, attrs)
  IN IF both THEN {} ELSE
     {Doc(p, <<TopCt("T", ct)>> \o gs),
      Doc(p, gs \o <<TopEl("T", TyCt(IF \A i \in 1..Len(ps) : ps[i] \notin {"any", "ch"} THEN [ct EXCEPT !.m = "all"] ELSE ct))>>),
      Doc(p, gs \o <<base, TopCt("T", CtX("ext", "seq", Tq(p, "Base"), parts, attrs))>>),
      Doc(p, <<TopCt("U", Ct("seq", <<El1("first", Bi(p, "int")), El("in-ner", TyCt(ct), "0", "unbounded"), El1("last", Bi(p, "int"))>>, <<>>))>> \o gs)}
MParts == {"el", "ref", "any", "no", "ct", "ch"}
MAttrs == {"at", "ref", "no", "ag", "far"}
MemberFamily(deep) ==
  UNION { MDocs(p, ps, as, any) :
            p \in (IF Deep THEN AllPfx ELSE {Pfx[1]}),
            ps \in {s \in SeqsUpTo(MParts, IF Deep THEN 3 ELSE 2) : MOk(s)},
            as \in SeqsUpTo(MAttrs, 1), any \in {<<>>, <<[k |-> "any"]>>} }
  \cup
  UNION { MDocs(p, ps, as, <<>>) :
            p \in AllPfx, ps \in {s \in SeqsUpTo(MParts, 1) : MOk(s)}, as \in SeqsUpTo(MAttrs, 2) }
  \cup
  UNION { MDocs(Pfx[4], ps, <<>>, <<>>) : ps \in {s \in [1..3 -> {"el", "ref", "ch", "no"}] : MOk(s)} }

(***************************************************************************)
(* Inheritance: every base relation on up to four types, with every kind    *)
(* of content, attribute groups and overridden members.                     *)
(***************************************************************************)
TN == <<"A1", "Bee", "c-type", "DD">>
Acyclic(b, n) == \* no type is among its own bases
  LET R[k \in 0..n] == IF k = 0 THEN [i \in 1..n |-> i] ELSE [i \in 1..n |-> IF R[k-1][i] = 0 THEN 0 ELSE b[R[k-1][i]]]
  IN \A i \in 1..n : R[n][i] = 0
InhTop(p, kind, name, ct) == IF kind = "el" THEN TopEl(name, TyCt(ct)) ELSE TopCt(name, ct)
IOwn(p, i, style) ==
  CASE style = "plain" -> <<El("e" \o ToString(i), Bi(p, "int"), "0", "")>>
    [] style = "over"  -> <<El("e" \o ToString(i), Bi(p, "int"), "0", ""), El("common", Bi(p, IF i = 1 THEN "int" ELSE "string"), "", IF i = 2 THEN "2" ELSE "")>>
    [] style = "anon"  -> <<El("n" \o ToString(i), TyCt(Ct("seq", <<El1("z", Bi(p, "int"))>>, <<>>)), "", "unbounded")>>
    [] style = "none"  -> <<>>
IAttr(p, i, g) == (IF g = "own" THEN <<At("a" \o ToString(i), Bi(p, "token"), "required")>> ELSE <<>>)
                  \o (IF g = "grp" THEN <<Ag(Tq(p, "G" \o ToString(i)))>> ELSE <<>>)
ICt(p, b, n, i, m, style, g) ==
  LET own == IOwn(p, i, style)
      attrs == IAttr(p, i, g)
  IN IF b[i] = 0
     THEN CASE m = "choice" -> Ct("choice", <<El1("x" \o ToString(i), Bi(p, "int"))>>, attrs)
            [] m = "empty"  -> Ct("empty", <<>>, attrs)
            [] m = "sext"   -> CtX("sext", "none", Xq(p, "string"), <<>>, attrs)
            [] OTHER        -> Ct(m, own, attrs)
     ELSE LET inner == IF m \in {"seq", "all"} THEN m ELSE IF m = "choice" THEN "choice" ELSE "none"
          IN CtX("ext", inner, Tq(p, TN[b[i]]),
                 CASE inner = "choice" -> <<El1("x" \o ToString(i), Bi(p, "int"))>> [] inner = "none" -> <<>> [] OTHER -> own, attrs)
IGroups(p, n) == [i \in 1..n |-> TopAg("G" \o ToString(i),
     <<At("g" \o ToString(i), Bi(p, "int"), "")>> \o (IF i > 1 THEN <<Ag(Tq(p, "H")), Ag("o:Far")>> ELSE <<>>))]
     \o <<TopAg("H", <<At("h-1", NoTy, "required")>>)>>
IDoc(p, kind, b, n, ms, style, g) ==
  Doc(p, [i \in 1..n |-> InhTop(p, IF kind = "el" /\ i = 1 THEN "el" ELSE "ct", TN[i], ICt(p, b, n, i, ms[i], style, g))]
         \o (IF g = "grp" THEN IGroups(p, n) ELSE <<>>))
Bases(n) == {b \in [1..n -> 0..n] : Acyclic(b, n)}
InheritFamily(deep) ==
  { IDoc(p, "ct", b, 3, ms, style, "own") :
      p \in {Pfx[1]}, b \in Bases(3), ms \in [1..3 -> {"seq", "choice", "empty"}], style \in {"plain", "over"} }
  \cup { IDoc(p, kind, b, 3, [i \in 1..3 |-> m], style, g) :
      p \in TwoPfx, kind \in {"ct", "el"}, b \in Bases(3), m \in {"seq", "all", "sext"}, style \in {"over", "anon"}, g \in {"own", "grp"} }
  \cup { IDoc(p, "ct", b, 2, ms, "plain", g) :
      p \in AllPfx, b \in Bases(2), ms \in [1..2 -> {"seq", "all", "choice", "empty", "sext"}], g \in {"grp", "none"} }
  \cup (IF Deep THEN { IDoc(p, "ct", b, 4, [i \in 1..4 |-> m], style, g) :
      p \in {Pfx[1], Pfx[4]}, b \in Bases(4), m \in {"seq", "choice"}, style \in {"over", "plain"}, g \in {"own", "grp"} }
        ELSE { IDoc(p, "ct", b, 4, [i \in 1..4 |-> "seq"], "plain", "own") : p \in {Pfx[1]}, b \in Bases(4) })

(***************************************************************************)
(* Simple types.                                                            *)
(***************************************************************************)
SVals == {"One", "two", "x-y", "4G", "self", "UDP", "A-Bc", "entrée"}
SStr(p) == {Rst(Xq(p, b), fs) : b \in {"string", "token", "int", "NMTOKEN", "anyURI", "decimal"},
             fs \in {<<>>, <<[f |-> "pattern", v |-> "[0-9]*"]>>}}
SEnums(p, n) == {Enum(p, vs) : vs \in {s \in SeqsUpTo(SVals, n) : s # <<>> /\ NoDup(s)}}
SLists(p) == {List(Bi(p, b)) : b \in {"int", "string", "boolean", "date", "NMTOKENS"}}
             \cup {List(Q("o:Thing")), List(Q(Tq(p, "Loc"))),
                   List(TySt(Enum(p, <<"A", "b">>))), List(TySt(Rst(Xq(p, "int"), <<>>))),
                   List(TySt(List(Bi(p, "double"))))}
SUnions(p) == {Union(qs, sts) :
                 qs \in SeqsUpTo({Xq(p, "int"), Xq(p, "gYear"), "o:Thing", Tq(p, "Loc")}, 2),
                 sts \in SeqsUpTo({Enum(p, <<"On", "off">>), Rst(Xq(p, "string"), <<>>), List(Bi(p, "int"))}, 2)}
SAll(p, n) == SStr(p) \cup SEnums(p, n) \cup SLists(p) \cup SUnions(p)
SCtx(p, st) == {<<TopSt("S-t1", st)>>, <<TopEl("el", TySt(st))>>,
                <<TopCt("Par-ent", Ct("seq", <<El("mem", TySt(st), "0", "unbounded")>>, <<>>))>>,
                <<TopEl("deep", TyCt(Ct("seq", <<El1("mid", TyCt(Ct("all", <<El1("mem", TySt(st))>>, <<>>)))>>, <<>>)))>>}
LocSt(p) == TopSt("Loc", Rst(Xq(p, "string"), <<>>))
SimpleFamily(deep) ==
  UNION { {Doc(p, t \o <<LocSt(p)>>) : t \in UNION {SCtx(p, st) : st \in SAll(p, 2)}} : p \in (IF Deep THEN AllPfx ELSE {Pfx[1], Pfx[4]}) }
  \cup UNION { {Doc(p, <<LocSt(p), TopSt("T", st), TopAt("att", TySt(st))>>) : st \in SAll(p, 1)} : p \in AllPfx }
  \cup (IF Deep THEN UNION { {Doc(p, t) : t \in UNION {SCtx(p, st) : st \in SEnums(p, 3)}} : p \in {Pfx[1]} } ELSE {})

(***************************************************************************)
(* Types of values: every built-in type under every prefix, at every place; *)
(* references to this and to other namespaces.                              *)
(***************************************************************************)
TypePlaces(p, q) ==
  {<<TopCt("T", Ct("seq", <<El1("a", Q(q)), El("b", Q(q), "0", "unbounded")>>, <<At("c", Q(q), "")>>))>>,
   <<TopSt("L", List(Q(q))), TopSt("U", Union(<<q>>, <<>>)), TopSt("R", Rst(q, <<>>)),
     TopCt("C", Ct("choice", <<El1("x", Q(q)), El("y", Q(q), "", "2")>>, <<>>))>>,
   <<TopEl("E", TyCt(Ct("all", <<El1("in", TyCt(CtX("ext", "seq", Tq(p, "B"), <<El1("d", Q(q))>>, <<>>)))>>, <<>>))),
     TopCt("B", Ct("empty", <<>>, <<At("e", Q(q), "required")>>)),
     TopEl("F", Q(q)), TopAg("G", <<At("f", Q(q), "")>>), TopCt("V", Ct("empty", <<>>, <<Ag(Tq(p, "G"))>>))>>}
LocalNames == {"Loc", "int", "String", "my-type", "Date", "dateTime", "integer"}
\* a type named like a built-in one is told apart by its prefix
ForeignNames == {"soap-env:Foo", "type:Bar", "n.1:x", "A:self", "o:_9", "o:Thing", "o:int", "ext:string", "ext:fooType", "o:my-simple_type", "zz:Date"}
\* members named like their type, and types of other namespaces named like ours
SameNames(p) ==
  LET tt == Q(Tq(p, "T"))  lo == Q(Tq(p, "Loc"))  loc == TopCt("Loc", Ct("seq", <<El("Loc", lo, "0", "")>>, <<>>)) IN
  UNION { {<<TopCt("T", Ct(m, <<El("T", tt, o[1], o[2]), El("Loc", lo, o[1], o[2])>>, <<>>)), loc>>,
           <<TopCt("T", Ct(m, <<El("t", tt, o[1], o[2])>>, <<At("Loc", lo, "")>>)), loc>>,
           <<loc, TopCt("T", Ct(m, <<El("T", Q("o:T"), o[1], o[2]), El("Loc", Q("o:Loc"), o[1], o[2]), El("b", tt, o[1], o[2]), El("c", lo, o[1], o[2])>>, <<>>))>>}
          : m \in {"seq", "all"}, o \in {<<"", "">>, <<"0", "">>, <<"0", "unbounded">>} }
  \cup { <<loc, TopCt("T", Ct("choice", <<El1("T", tt), El1("Loc", lo), El("x", Q("o:T"), "0", "")>>, <<>>))>>,
         <<loc, TopCt("T", Ct("seq", <<El1("k", lo), ChoiceP(<<El1("T", tt), El("Loc", lo, "", "unbounded"), El1("x", Q("o:Loc"))>>)>>, <<>>))>>,
         <<loc, TopCt("T", CtX("ext", "seq", Tq(p, "Loc"), <<El("T", tt, "0", ""), El("b", lo, "0", "")>>, <<At("c", lo, "")>>))>>,
         <<loc, TopEl("E", TyCt(Ct("seq", <<El1("E", TyCt(Ct("seq", <<El1("Loc", lo), El1("E", Bi(p, "int"))>>, <<>>)))>>, <<>>)))>>,
         <<loc, TopSt("U", Union(<<Tq(p, "Loc"), "o:Loc">>, <<>>)), TopSt("V", Union(<<"o:Loc", Tq(p, "Loc"), "ext:Loc">>, <<>>)), TopSt("W", Union(<<"o:int", Xq(p, "int")>>, <<>>))>>,
         <<loc, TopSt("L", List(Q("o:Loc"))), TopSt("M", List(lo)), TopSt("N", Rst("o:N", <<>>)), TopEl("O", Q("o:O")), TopAt("P", Q("o:P"))>> }
TypeFamily(deep) ==
  UNION { {Doc(p, t) : t \in SameNames(p)} : p \in AllPfx }
  \cup
  UNION { {Doc(p, t) : t \in TypePlaces(p, Xq(p, b))} : p \in AllPfx, b \in DOMAIN Builtins }
  \cup UNION { {Doc(p, t) : t \in TypePlaces(p, q)} : p \in AllPfx, q \in ForeignNames }
  \cup UNION { {Doc(p, t \o <<TopSt(n, Enum(p, <<"A">>))>>) : t \in TypePlaces(p, Tq(p, n))}
               : p \in {Pfx[1], Pfx[2], Pfx[6]}, n \in LocalNames \ {"String"} }
  \cup UNION { {Doc(p, <<TopCt(n, Ct("seq", <<>>, <<>>))>> \o t) : t \in TypePlaces(p, Tq(p, n))}
               : p \in AllPfx, n \in {"Loc", "my-type"} }

(***************************************************************************)
(* Names.                                                                   *)
(***************************************************************************)
RECURSIVE Str(_)
Str(s) == IF s = <<>> THEN "" ELSE Head(s) \o Str(Tail(s))
NameStart == {"a", "Z", "_"}
NameChars == {"b", "A", "7", "-", "_", "."}
ShortNames(deep) == {c \o Str(s) : c \in NameStart, s \in SeqsUpTo(NameChars, IF Deep THEN 3 ELSE 2)}
LongNames == {"HTTPServer2Go", "IPv4Address", "x509Certificate", "a1B2c3", "ABCdefGHI", "camelCaseName",
              "PascalCase", "snake_case_name", "kebab-case-name", "dotted.name.here", "trailing-", "_leading",
              "double--dash", "UPPER_CASE", "OSDText", "XMLHttp", "Tns", "xsd", "tt", "v2.0", "isOK", "e-", "a_-b"}
\* the vocabulary of schemas, of the generated code and of its generator
Vocab == {"base", "name", "value", "any", "anyAttribute", "any_attribute", "extension", "restriction", "choice", "sequence", "all",
          "element", "attribute", "attributeGroup", "group", "text", "content", "annotation", "documentation", "simpleType",
          "complexType", "list", "union", "schema", "import", "include", "enumeration", "xmlns", "lang", "id", "field", "fields",
          "Choice", "Type_", "types", "unknown", "Unknown", "Any", "xml", "rename", "prefix", "namespace", "flatten", "root",
          "enumCase", "Alias", "file", "clone", "default", "from_str", "validate", "string", "int", "integer", "anyType",
          "minOccurs", "use", "ref", "itemType", "memberTypes", "targetNamespace", "None_", "empty", "Empty", "Foo", "parent"}
HasAlnum(s) == \E i \in 1..Len(s) : Ch(s, i) \in Alnums
CapKeywords == {"Type", "Ref", "Match", "Loop", "Mod", "Super", "Crate", "FN", "IN", "Use", "Struct", "Async"}
NamePlaces(p, n) ==
  {<<TopCt(n, Ct("seq", <<El1("fld", TyCt(Ct("seq", <<>>, <<>>)))>>, <<>>)),
     TopCt("User1", Ct("seq", <<El1("u", Q(Tq(p, n)))>>, <<>>))>>,
   <<TopCt("T1", Ct("seq", <<El1(n, Bi(p, "int"))>>, <<>>)),
     TopCt("T2", Ct("empty", <<>>, <<At(n, Bi(p, "int"), "")>>)),
     TopCt("T3", Ct("choice", <<El1(n, Bi(p, "int"))>>, <<>>))>>,
   <<TopEl(n, TyCt(Ct("choice", <<El1("fld", Bi(p, "int"))>>, <<>>)))>>,
   <<TopEl("T1", TyCt(Ct("seq", <<El1(n, TyCt(Ct("choice", <<El1("x", Bi(p, "int"))>>, <<>>)))>>, <<>>)))>>,
   <<TopCt("T1", Ct("seq", <<El1(n, TySt(Enum(p, <<"x">>)))>>, <<>>))>>,
   <<TopSt(n, Rst(Xq(p, "string"), <<>>)), TopSt("Un", Union(<<Tq(p, n)>>, <<>>)), TopSt("Li", List(Q(Tq(p, n))))>>,
   <<TopSt("E1", Enum(p, <<n>>))>>,
   <<TopCt("T1", Ct("seq", <<Ref("o:" \o n, "0", "")>>, <<AtRef("ext:" \o n, "")>>))>>,
   <<TopCt(n, Ct("seq", <<ChoiceP(<<El1("x", Bi(p, "int"))>>)>>, <<>>))>>,
   <<TopCt("D1", CtX("ext", "seq", Tq(p, "B1"), <<El1("first", Bi(p, "int")), El(n, Bi(p, "date"), "0", "")>>, <<>>)),
     TopCt("B1", Ct("seq", <<El1(n \o "B", Bi(p, "int"))>>, <<At(n, Bi(p, "int"), "required")>>)),
     TopCt("D2", CtX("ext", "none", Tq(p, "D1"), <<>>, <<At(n \o "A", Bi(p, "int"), "")>>)),
     TopCt("B2", Ct("seq", <<El1(n, Bi(p, "int"))>>, <<>>)),
     TopCt("D3", CtX("ext", "seq", Tq(p, "B2"), <<El1("x", Bi(p, "int"))>>, <<At("y", Bi(p, "int"), "")>>))>>,
   <<TopAg("G1", <<At(n, Bi(p, "int"), "required"), At("g", Bi(p, "int"), "")>>), TopCt("T1", Ct("seq", <<El1("x", Bi(p, "int"))>>, <<Ag(Tq(p, "G1"))>>))>>,
   <<TopSt("S1", Union(<<>>, <<Enum(p, <<"A", n>>), Rst(Xq(p, "string"), <<>>)>>)),
     TopCt("T1", Ct("seq", <<El1("x", Bi(p, "int")), ChoiceP(<<El1(n, Q(Tq(p, "S1"))), El("y", Bi(p, "int"), "0", "")>>), El1("z", Bi(p, "int"))>>, <<>>))>>,
   <<TopAg(n, <<At("a1", Bi(p, "int"), "required")>>), TopCt("T1", Ct("seq", <<El1("x", Bi(p, "int"))>>, <<Ag(Tq(p, n))>>))>>}
\* letters of any script, at any place
XNames == {"été", "Élan", "entréeTotal", "müde", "üb-er", "a_é", "жЖa", "ЖжB", "Ж1Ab", "日b", "x日Y", "A日日Bc",
           "éÉx", "bÉc-DÉf", "Zéro", "ID-été", "ZÉ", "日日日aBc"}
ValueNames == {"Full-Duplex", "On-Off", "A-B", "A1-B2", "Abc-D", "entrée", "Ж-1", "日b", "4G", "10", "0", "-1", "a-", "-a", "1-2-3", "007"}
NameFamily(deep) ==
  UNION { {Doc(p, t) : t \in NamePlaces(p, n)} : p \in {Pfx[1]},
           n \in {m \in ShortNames(Deep) : HasAlnum(m)} }
  \cup UNION { {Doc(p, t) : t \in NamePlaces(p, n)} : p \in {Pfx[1], Pfx[4]}, n \in LongNames \cup Keywords \cup CapKeywords \cup {"_type", "_Self"} }
  \cup UNION { {Doc(p, t) : t \in NamePlaces(p, n)} : p \in (IF Deep THEN AllPfx ELSE {Pfx[1]}), n \in Vocab }
  \cup {Doc(Pfx[1], <<TopSt("E1", Enum(Pfx[1], <<n>>))>>) : n \in ValueNames}
  \cup UNION { {Doc(p, t) : t \in NamePlaces(p, n)} : p \in {Pfx[1]}, n \in XNames }

(***************************************************************************)
(* Choices.                                                                 *)
(***************************************************************************)
CAlts(p) == {El1("a", Bi(p, "int")), El("bee", Q(Tq(p, "Loc")), "0", ""), El("c-d", Bi(p, "string"), "", "unbounded"),
             Ref("o:thing", "", ""), El("type", Q("ext:fooType"), "0", "2"), AnyPart}
CSeqs(p) == {s \in SeqsUpTo(CAlts(p), IF Deep THEN 3 ELSE 2) : s # <<>> /\ NoDup(s) /\ s # <<AnyPart>>}
CPlaces(p, alts) ==
  {<<TopCt("Cho-ice", Ct("choice", alts, <<>>))>>,
   <<TopEl("fooBar", TyCt(Ct("choice", alts, <<At("at", Bi(p, "int"), "")>>)))>>,
   <<TopCt("T", Ct("seq", <<ChoiceP(alts)>>, <<>>))>>,
   <<TopCt("T", Ct("seq", <<El1("before", Bi(p, "int")), ChoiceP(alts), El1("after", Bi(p, "int"))>>, <<At("at", NoTy, "")>>))>>,
   <<TopCt("T", CtX("ext", "choice", Tq(p, "B"), alts, <<At("x", NoTy, "")>>)), TopCt("B", Ct("seq", <<El1("own", Bi(p, "int"))>>, <<>>))>>,
   <<TopCt("T", CtX("ext", "seq", Tq(p, "B"), <<El1("own", Bi(p, "int"))>>, <<>>)), TopCt("B", Ct("choice", alts, <<>>))>>,
   <<TopCt("T", CtX("ext", "seq", Tq(p, "B"), <<El1("own", Bi(p, "int")), ChoiceP(alts)>>, <<>>)), TopCt("B", Ct("empty", <<>>, <<At("k", NoTy, "")>>))>>,
   <<TopCt("T", Ct("seq", <<El("in-ner", TyCt(Ct("choice", alts, <<>>)), "0", "unbounded")>>, <<>>))>>,
   <<TopCt("T", Ct("seq", <<El1("in-ner", TyCt(Ct("seq", <<El1("first", Bi(p, "int")), ChoiceP(alts)>>, <<>>)))>>, <<>>))>>}
ChoiceFamily(deep) ==
  UNION { {Doc(p, t \o <<LocSt(p)>>) : t \in UNION {CPlaces(p, s) : s \in CSeqs(p)}} : p \in (IF Deep THEN AllPfx ELSE {Pfx[1], Pfx[4]}) }

(***************************************************************************)
(* Nesting: trees of anonymous types.                                       *)
(***************************************************************************)
RECURSIVE NTypes(_, _)
NTypes(p, d) ==
  {Bi(p, "int"), TySt(Enum(p, <<"x">>)), TySt(List(TySt(Enum(p, <<"y", "z">>)))), TySt(Union(<<Xq(p, "int")>>, <<Enum(p, <<"w">>)>>)), Q(Tq(p, "Loc"))}
  \cup (IF d = 0 THEN {} ELSE
    {TyCt(Ct("seq", <<El1("k" \o ToString(d), t)>>, <<>>)) : t \in NTypes(p, d - 1)}
    \cup {TyCt(Ct("choice", <<El1("x", Bi(p, "int"))>>, <<>>)),
          TyCt(Ct("seq", <<ChoiceP(<<El1("x", Bi(p, "int"))>>)>>, <<>>))})
NestDocs(p, d1, d2) ==
  UNION { {Doc(p, <<TopCt("Ro-ot", Ct("seq", <<El1("first", t1), El("secOnd", t2, "0", "unbounded")>>, <<>>)), LocSt(p)>>),
           Doc(p, <<LocSt(p), TopEl("root", TyCt(Ct("all", <<El1("first", t1), El1("first-b", t2)>>, <<>>)))>>),
           Doc(p, <<TopCt("Deriv", CtX("ext", "seq", Tq(p, "Ba"), <<El1("own", t2)>>, <<>>)), LocSt(p), TopCt("Ba", Ct("seq", <<El1("base-m", t1)>>, <<>>))>>)}
          : t1 \in NTypes(p, d1), t2 \in NTypes(p, d2) }
\* two or three siblings whose anonymous types differ little, or not at all
SmallCts(p) == {Ct("seq", <<El1(x, Bi(p, t))>>, <<>>) : x \in {"a", "b"}, t \in {"int", "string"}}
               \cup {Ct("choice", <<El1(x, Bi(p, "int"))>>, <<>>) : x \in {"a", "b"}}
               \cup {Ct("seq", <<El1("q", TyCt(Ct("seq", <<El1(x, Bi(p, "int"))>>, <<>>)))>>, <<>>) : x \in {"a", "b"}}
               \cup {Ct("seq", <<>>, <<>>), Ct("seq", <<>>, <<At("a", Bi(p, "int"), "")>>)}
SmallTys(p) == {TyCt(c) : c \in SmallCts(p)}
               \cup {TySt(s) : s \in {Enum(p, <<"x">>), Enum(p, <<"y">>), List(TySt(Enum(p, <<"x">>))), List(Bi(p, "int")), Rst(Xq(p, "string"), <<>>),
                                        Union(<<Xq(p, "int")>>, <<>>), Union(<<Xq(p, "date")>>, <<Enum(p, <<"x">>)>>)}}
TwinDocs(p) ==
  UNION { {Doc(p, <<TopCt("T", Ct("seq", <<El1("one", t1), El("two", t2, "0", "unbounded")>>, <<>>)), TopEl("E", TyCt(Ct("all", <<El1("one", t2)>>, <<>>)))>>),
           Doc(p, <<TopEl("one", t1), TopEl("two", t2)>>),
           Doc(p, <<TopCt("Aa", Ct("seq", <<El1("one", t1)>>, <<>>)), TopCt("Bb", Ct("seq", <<El1("one", t2)>>, <<>>))>>),
           Doc(p, <<TopCt("Dd", CtX("ext", "seq", Tq(p, "Bb"), <<El1("two", t2)>>, <<>>)), TopCt("Bb", Ct("seq", <<El1("one", t1)>>, <<>>))>>)}
          : t1 \in SmallTys(p), t2 \in SmallTys(p) }
  \cup { Doc(p, <<TopCt("T", Ct("seq", <<El1("one", t1), El1("two", t2), El1("six", t3)>>, <<>>))>>)
          : t1 \in {TyCt(c) : c \in SmallCts(p)}, t2 \in {TyCt(c) : c \in SmallCts(p)}, t3 \in {TyCt(Ct("seq", <<El1("c", Bi(p, "int"))>>, <<>>)), TySt(Enum(p, <<"x">>))} }
NestFamily(deep) ==
  UNION { TwinDocs(p) : p \in (IF Deep THEN AllPfx ELSE {Pfx[1]}) }
  \cup
  UNION { NestDocs(p, IF Deep THEN 3 ELSE 2, IF Deep THEN 2 ELSE 1) : p \in (IF Deep THEN {Pfx[1], Pfx[3], Pfx[4]} ELSE {Pfx[1]}) }
  \cup UNION { { Doc(p, <<TopCt("Ro-ot", Ct("seq", <<El1("first", t1)>>, <<>>)), LocSt(p)>>) : t1 \in NTypes(p, 3) } : p \in AllPfx }

(***************************************************************************)
(* Asides: every kind of component with every attribute or constraint that  *)
(* says nothing about its name, its type or how often it occurs.            *)
(***************************************************************************)
Beside(rec, as) == IF as = <<>> THEN rec ELSE rec @@ [aside |-> as]
EachAside(k) == {<<a>> : a \in AsidesOf(k)}
OccShapes == <<[n |-> "e1", min |-> "", max |-> ""], [n |-> "e2", min |-> "0", max |-> ""], [n |-> "e3", min |-> "0", max |-> "1"],
               [n |-> "e4", min |-> "1", max |-> "1"], [n |-> "e5", min |-> "", max |-> "unbounded"], [n |-> "e6", min |-> "0", max |-> "4"]>>
UseShapes == <<"", "optional", "required", "prohibited">>
AsideTys(p) == {Bi(p, "string"), Bi(p, "int"), Q(Tq(p, "Loc")), TyCt(Ct("seq", <<El1("k", Bi(p, "int"))>>, <<>>)), TySt(Enum(p, <<"x", "7">>))}
AsideEls(p, as) ==
  UNION { LET els == [i \in 1..Len(OccShapes) |-> Beside(El(OccShapes[i].n, ty, OccShapes[i].min, OccShapes[i].max), as)] IN
          {<<TopCt("T", Ct("seq", els, <<>>))>>, <<TopEl("E", TyCt(Ct("all", els, <<>>)))>>,
           <<TopCt("D", CtX("ext", "seq", Tq(p, "B"), els, <<>>)), TopCt("B", Ct("seq", <<El1("b", Bi(p, "int"))>>, <<>>))>>}
          \cup (IF ty.k # "q" THEN {} ELSE
               {<<TopCt("T", Ct("choice", els, <<>>))>>, <<TopCt("T", Ct("seq", <<ChoiceP(els)>>, <<>>))>>})
          : ty \in AsideTys(p) }
AsideRefs(p, as) ==
  LET refs == [i \in 1..Len(OccShapes) |-> Beside(Ref("o:" \o OccShapes[i].n, OccShapes[i].min, OccShapes[i].max), as)] IN
  {<<TopCt("T", Ct("seq", refs, <<>>))>>, <<TopCt("T", Ct("choice", refs, <<>>))>>}
AsideAts(p, as) ==
  UNION { LET ats == [i \in 1..4 |-> Beside(At("a" \o ToString(i), ty, UseShapes[i]), as)] IN
          {<<TopCt("T", Ct("empty", <<>>, ats))>>, <<TopCt("T", CtX("sext", "none", Xq(p, "int"), <<>>, ats))>>,
           <<TopAg("G", ats), TopCt("T", Ct("seq", <<El1("k", Bi(p, "int"))>>, <<Ag(Tq(p, "G"))>>))>>}
          : ty \in {Bi(p, "string"), Bi(p, "boolean"), NoTy, Q(Tq(p, "Loc"))} }
AsideAtRefs(p, as) == {<<TopCt("T", Ct("empty", <<>>, [i \in 1..4 |-> Beside(AtRef("o:a" \o ToString(i), UseShapes[i]), as)]))>>}
AsideCts(p, as) ==
  LET bs == TopCt("B", Ct("seq", <<El1("b", Bi(p, "int"))>>, <<>>))
      at == At("a", Bi(p, "int"), "")
      cts == {Ct("seq", <<El1("k", Bi(p, "int"))>>, <<at>>), Ct("empty", <<>>, <<>>), Ct("empty", <<>>, <<at>>), Ct("choice", <<El1("k", Bi(p, "int")), El1("l", Bi(p, "string"))>>, <<>>),
              Ct("all", <<El1("k", Bi(p, "int"))>>, <<>>), CtX("ext", "seq", Tq(p, "B"), <<El1("k", Bi(p, "int"))>>, <<at>>), CtX("sext", "none", Xq(p, "string"), <<>>, <<at>>)} IN
  UNION { {<<bs, TopCt("T", Beside(ct, as))>>, <<bs, TopEl("E", TyCt(Beside(ct, as)))>>,
           <<bs, TopCt("T", Ct("seq", <<El("in", TyCt(Beside(ct, as)), "0", "unbounded")>>, <<>>))>>} : ct \in cts }
  \cup {<<TopCt("D", CtX("ext", "none", Tq(p, "B"), <<>>, <<at>>)), TopCt("B", Beside(Ct("seq", <<El1("b", Bi(p, "int"))>>, <<at>>), as))>>}
AsideSts(p, as) ==
  {<<TopSt("T", Beside(st, as))>> : st \in {Enum(p, <<"x", "y">>), Rst(Xq(p, "int"), <<[f |-> "maxInclusive", v |-> "7"]>>), List(Bi(p, "int")), Union(<<Xq(p, "int")>>, <<Enum(p, <<"x">>)>>)}}
AsideFacets(p, as) ==
  {<<TopSt("T", Rst(Xq(p, "string"), <<Beside([f |-> f.f, v |-> f.v], as)>>))>> :
     f \in {[f |-> "enumeration", v |-> "x"], [f |-> "enumeration", v |-> "x y"], [f |-> "maxLength", v |-> "7"], [f |-> "pattern", v |-> "[a-z]*"]}}
AsideTops(p, as) ==
  {<<Beside(TopEl("e", ty), as)>> : ty \in AsideTys(p)}
  \cup {<<Beside(TopEl("one", TyCt(Ct("seq", <<El1("k", Bi(p, "int"))>>, <<>>))), as), TopEl("head", Bi(p, "string"))>>}
AsideTopAts(p, as) == {<<Beside(TopAt("e", ty), as)>> : ty \in {Bi(p, "string"), TySt(Enum(p, <<"x">>)), Q(Tq(p, "Loc"))}}
AsideAny(p, as) == {<<TopCt("T", Ct("seq", <<El1("k", Bi(p, "int")), Beside(AnyPart, as)>>, <<Beside([k |-> "any"], as)>>))>>}
AsideFamily(deep) ==
  UNION { {Doc(p, t \o <<LocSt(p)>>) : t \in
              UNION {AsideEls(p, as) : as \in EachAside("el")} \cup UNION {AsideRefs(p, as) : as \in EachAside("ref")}
              \cup UNION {AsideAts(p, as) : as \in EachAside("at")} \cup UNION {AsideAtRefs(p, as) : as \in EachAside("atref")}
              \cup UNION {AsideCts(p, as) : as \in EachAside("ct")} \cup UNION {AsideSts(p, as) : as \in EachAside("st")}
              \cup UNION {AsideFacets(p, as) : as \in EachAside("facet")} \cup UNION {AsideTops(p, as) : as \in EachAside("top")}
              \cup UNION {AsideTopAts(p, as) : as \in EachAside("topat")} \cup UNION {AsideAny(p, as) : as \in EachAside("any")}}
          : p \in (IF Deep THEN AllPfx ELSE {Pfx[1]}) }

Family(n) == CASE n = "card"    -> CardFamily(Deep)
               [] n = "member"  -> MemberFamily(Deep)
               [] n = "inherit" -> InheritFamily(Deep)
               [] n = "simple"  -> SimpleFamily(Deep)
               [] n = "type"    -> TypeFamily(Deep)
               [] n = "name"    -> NameFamily(Deep)
               [] n = "choice"  -> ChoiceFamily(Deep)
               [] n = "nest"    -> NestFamily(Deep)
               [] n = "aside"   -> AsideFamily(Deep)
=============================================================================
