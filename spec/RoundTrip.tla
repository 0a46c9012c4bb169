----------------------------- MODULE RoundTrip -----------------------------
(* Documents of a schema, and when two of them are the same.                 *)
(*                                                                           *)
(* A document is a tree [n, ns, a, k, t]: name and namespace of the element,  *)
(* attributes (a sequence of [n, ns, v]), children, and text (of an element   *)
(* without children).  Everything here reads the schema document (Xsd.tla),   *)
(* never the generated code.                                                 *)
EXTENDS XsdDomain
Fac == INSTANCE Facets

(***************************************************************************)
(* Types of content: [k |-> "bi", n], [k |-> "st", st], or                   *)
(* [k |-> "ct", ct, name] (name "" if anonymous).                            *)
(***************************************************************************)
Bi(n) == [k |-> "bi", n |-> n]
NoType == [k |-> "none"]
Tops(doc, q, kinds) == SelectSeq(doc.tops, LAMBDA t : t.k \in kinds /\ t.name = Local(q))
RECURSIVE TypeOf(_, _)
TypeOf(doc, ty) ==
  CASE ty.k = "none" -> Bi("string")
    [] ty.k = "ct" -> [k |-> "ct", ct |-> ty.ct, name |-> ""]
    [] ty.k = "st" -> [k |-> "st", st |-> ty.st]
    [] OTHER -> IF IsBuiltin(doc, ty.q) THEN Bi(Local(ty.q))
                ELSE IF ~InTarget(doc, ty.q) THEN NoType
                ELSE LET c == Tops(doc, ty.q, {"ct", "st"}) IN
                     IF Len(c) # 1 THEN NoType
                     ELSE IF c[1].k = "ct" THEN [k |-> "ct", ct |-> c[1].ct, name |-> c[1].name]
                     ELSE [k |-> "st", st |-> c[1].st]
QType(doc, q) == TypeOf(doc, [k |-> "q", q |-> q])
(* of the element a reference is to: one with a type of its own              *)
RefType(doc, q) ==
  LET e == Tops(doc, q, {"el"}) IN
  IF ~InTarget(doc, q) \/ Len(e) # 1 THEN NoType ELSE IF e[1].ty.k = "q" THEN NoType ELSE TypeOf(doc, e[1].ty)
PartType(doc, p) == IF p.k = "ref" THEN RefType(doc, p.q) ELSE TypeOf(doc, p.ty)
PartName(p) == IF p.k = "ref" THEN Local(p.q) ELSE p.name
AttrType(doc, a) == IF a.k = "ref" THEN NoType ELSE TypeOf(doc, a.ty)

(* The complex type a type extends ([m |-> "empty"...] if none).             *)
Nothing == [m |-> "empty", inner |-> "none", base |-> "", parts |-> <<>>, attrs |-> <<>>]
HasBase(ct) == ct.m \in {"ext", "rst", "sext"}
BaseCt(doc, ct) ==
  IF ct.m # "ext" \/ ~InTarget(doc, ct.base) THEN Nothing
  ELSE LET b == Tops(doc, ct.base, {"ct"}) IN IF Len(b) = 1 THEN b[1].ct ELSE Nothing

(* All attributes: own, of groups, of the base.                              *)
RECURSIVE GroupAttrs(_, _)
GroupAttrs(doc, attrs) ==
  Concat([i \in 1..Len(attrs) |->
     IF attrs[i].k = "ag" THEN LET g == Tops(doc, attrs[i].q, {"ag"}) IN IF g = <<>> THEN <<>> ELSE GroupAttrs(doc, g[1].attrs)
     ELSE IF attrs[i].k = "any" THEN <<>> ELSE <<attrs[i]>>])
RECURSIVE Attrs(_, _)
Attrs(doc, ct) == GroupAttrs(doc, ct.attrs) \o (IF HasBase(ct) THEN Attrs(doc, BaseCt(doc, ct)) ELSE <<>>)

(* The elements of the type itself, alternatives marked.                     *)
IsChoice(ct) == ct.m = "choice" \/ (HasBase(ct) /\ ct.inner = "choice")
Child(p, alt) == [p |-> p, alt |-> alt]
Own(ct) == Concat([i \in 1..Len(ct.parts) |->
             LET p == ct.parts[i] IN
             IF p.k = "any" THEN <<>>
             ELSE IF p.k = "choice" THEN [n \in 1..Len(p.parts) |-> Child(p.parts[n], TRUE)]
             ELSE <<Child(p, IsChoice(ct))>>])
RECURSIVE Children(_, _)
Children(doc, ct) == Own(ct) \o (IF HasBase(ct) THEN Children(doc, BaseCt(doc, ct)) ELSE <<>>)

(***************************************************************************)
(* The domain: schemas whose generated code compiles, and documents it can    *)
(* hold; what is outside is listed with the findings.                        *)
(***************************************************************************)
ListBi == {"NMTOKENS", "IDREFS", "ENTITIES"}
ScalarBi == DOMAIN Builtins \ (ListBi \cup {"anySimpleType"})
IsScalar(T) == T.k = "bi" /\ T.n \in ScalarBi
Facets(st) == {st.facets[i].f : i \in 1..Len(st.facets)}
RECURSIVE TupleRuns(_, _)                  \* a newtype around one value
TupleRuns(doc, st) ==
  /\ st.k = "rst" /\ ~IsEnumeration(st)
  /\ "enumeration" \notin Facets(st)
  /\ LET b == QType(doc, st.base) IN
     \/ IsScalar(b) /\ Facets(st) \subseteq {"pattern", "minLength", "maxLength", "length"}
                    /\ (Facets(st) \cap {"minLength", "maxLength", "length"} # {} => Builtins[b.n] = "String")
     \/ b.k = "st" /\ Facets(st) \subseteq {"pattern"} /\ TupleRuns(doc, b.st)
EnumRuns(doc, st) == IsEnumeration(st) /\ QType(doc, st.base) \in {Bi(n) : n \in {"string", "token", "NMTOKEN", "Name", "NCName", "normalizedString", "anyURI"}}
ItemRuns(doc, T) == IsScalar(T) \/ (T.k = "st" /\ TupleRuns(doc, T.st))
ListRuns(doc, st) == st.k = "list" /\ (IF st.ty.k = "q" THEN ItemRuns(doc, QType(doc, st.ty.q))
                                       ELSE st.ty.st.k = "rst" /\ ~IsEnumeration(st.ty.st) /\ "enumeration" \notin Facets(st.ty.st) /\ TupleRuns(doc, st.ty.st)
                                            /\ IsScalar(QType(doc, st.ty.st.base)) /\ st.ty.st.facets = <<>>)
UnionRuns(doc, st) ==
  /\ st.k = "union"
  /\ Len(st.qs) + Len(st.sts) > 0
  /\ \A i \in 1..Len(st.qs) : ItemRuns(doc, QType(doc, st.qs[i]))
  /\ \A i \in 1..Len(st.sts) : TupleRuns(doc, st.sts[i])
StRuns(doc, st) == TupleRuns(doc, st) \/ EnumRuns(doc, st) \/ ListRuns(doc, st)

(* Direct recursion is behind a Vec; other ways to contain itself are not.   *)
RECURSIVE CtRuns(_, _, _)
MemberRuns(doc, self, T, d) ==
  \/ IsScalar(T)
  \/ T.k = "st" /\ StRuns(doc, T.st)
  \/ T.k = "ct" /\ d > 0 /\ CtRuns(doc, T, d - 1)
PlainOcc(p) == MinOf(p.min) <= MaxOf(p.max) /\ Bare(p.min) \in {"", "0", "1", "2", "3"} /\ Bare(p.max) \in {"", "0", "1", "2", "3", "7", "10", "unbounded"}
SelfPart(doc, self, p) == self # "" /\ p.k = "el" /\ p.ty.k = "q" /\ InTarget(doc, p.ty.q) /\ ~IsBuiltin(doc, p.ty.q) /\ Local(p.ty.q) = self
PartRuns(doc, self, c, d) ==
  LET p == c.p IN
  /\ p.k \in {"el", "ref"} /\ PlainOcc(p)
  /\ (p.k = "el" => ~HasPrefix(p.name) /\ p.ty.k # "none")
  /\ IF SelfPart(doc, self, p) THEN ~c.alt /\ MinOf(p.min) = 0
     ELSE MemberRuns(doc, self, PartType(doc, p), d)
  /\ c.alt => /\ MaxOf(p.max) = 1
              /\ p.k = "ref" \/ p.ty.k = "q"
              /\ MinOf(p.min) = 1
              /\ LET T == PartType(doc, p) IN T.k = "ct" => Attrs(doc, T.ct) = <<>>
AttrRuns(doc, a) ==
  /\ a.k = "at" /\ ~HasPrefix(a.name)
  /\ a.ty.k \in {"none", "q"}
  /\ LET T == AttrType(doc, a) IN IsScalar(T) \/ (T.k = "st" /\ StRuns(doc, T.st))
(* yaserde loses the alternative beside members it reads by their own impl.   *)
Primitive(T) == T.k = "bi" /\ Builtins[T.n] \in {"String", "bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f64"}
Flat(doc, cs) == (\E i \in 1..Len(cs) : cs[i].alt) => \A i \in 1..Len(cs) : ~cs[i].alt => Primitive(PartType(doc, cs[i].p))
CtRuns(doc, T, d) ==
  LET ct == T.ct
      cs == Children(doc, ct)
      as == Attrs(doc, ct)
      names == [i \in 1..Len(cs) |-> PartName(cs[i].p)]
  IN /\ ct.m \in {"empty", "seq", "all", "choice", "ext"}
     /\ ct.m = "ext" => BaseCt(doc, ct) # Nothing \/ \E i \in 1..Len(doc.tops) : doc.tops[i].k = "ct" /\ InTarget(doc, ct.base) /\ doc.tops[i].name = Local(ct.base)
     /\ ct.m = "ext" => (T.name = "" \/ Local(ct.base) # T.name) /\ d > 0 /\ CtRuns(doc, [k |-> "ct", ct |-> BaseCt(doc, ct), name |-> Local(ct.base)], d - 1)
     /\ \A i \in 1..Len(Own(ct)) : PartRuns(doc, T.name, Own(ct)[i], d)
     /\ NoDup(names)
     /\ Flat(doc, cs)
     /\ \A i \in 1..Len(as) : AttrRuns(doc, as[i])
     /\ NoDup([i \in 1..Len(as) |-> as[i].name])
     /\ \A i \in 1..Len(as) : as[i].name \notin Range(names)      \* an own element hides an inherited attribute
     /\ \A i \in 1..Len(ct.attrs) : ct.attrs[i].k # "ref"
     /\ Cardinality({i \in 1..Len(ct.parts) : ct.parts[i].k = "choice"}) <= 1
     /\ IsChoice(ct) => Len(ct.parts) > 0 /\ \A i \in 1..Len(ct.parts) : ct.parts[i].k \in {"el", "ref"}

(* Does a type refer to a name, at any depth?  (self-parts of its top aside) *)
RECURSIVE Names(_, _)
TyNames(ty, self) == CASE ty.k = "q" -> {Local(ty.q)} [] ty.k = "ct" -> Names(ty.ct, "") [] OTHER -> {}
PartNames(p, self) == CASE p.k = "any" -> {}
                        [] p.k = "ref" -> {Local(p.q)}
                        [] p.k = "choice" -> UNION {CASE p.parts[i].k = "ref" -> {Local(p.parts[i].q)} [] p.parts[i].k = "el" -> TyNames(p.parts[i].ty, "") [] OTHER -> {} : i \in 1..Len(p.parts)}
                        [] OTHER -> TyNames(p.ty, "") \ (IF p.ty.k = "q" THEN {self} ELSE {})
Names(ct, self) == UNION {PartNames(ct.parts[i], self) : i \in 1..Len(ct.parts)} \cup (IF ct.base = "" THEN {} ELSE {Local(ct.base)})
NamedCts(doc) == SelectSeq(doc.tops, LAMBDA t : IsComplexTop(t))
Uses(doc, t) == Names(CtOfTop(t), IF t.k = "ct" /\ CtOfTop(t).m # "choice" THEN t.name ELSE "")
RECURSIVE Reach(_, _, _)
Reach(doc, ns, n) ==
  LET more == ns \cup UNION {Uses(doc, t) : t \in {x \in Range(NamedCts(doc)) : x.name \in ns}}
  IN IF n = 0 \/ more = ns THEN ns ELSE Reach(doc, more, n - 1)
NoCycles(doc) == \A t \in Range(NamedCts(doc)) : t.name \notin Reach(doc, Uses(doc, t), Len(doc.tops))

TopRuns(doc, t) ==
  CASE t.k = "ct" -> CtRuns(doc, [k |-> "ct", ct |-> t.ct, name |-> t.name], 8)
    [] t.k = "st" -> StRuns(doc, t.st) \/ UnionRuns(doc, t.st)
    [] t.k = "el" -> CASE t.ty.k = "ct" -> CtRuns(doc, [k |-> "ct", ct |-> t.ty.ct, name |-> ""], 8)
                       [] t.ty.k = "st" -> StRuns(doc, t.ty.st) \/ UnionRuns(doc, t.ty.st)
                       [] OTHER -> TRUE
    [] t.k = "ag" -> \A i \in 1..Len(t.attrs) : t.attrs[i].k \in {"ag", "any"} \/ AttrRuns(doc, t.attrs[i])
    [] t.k = "at" -> t.ty.k = "q" \/ (t.ty.k = "st" /\ (StRuns(doc, t.ty.st)))
    [] OTHER -> FALSE
Runs(doc) ==
  /\ Supported(doc)
  /\ \A i, j \in 1..Len(doc.tops) : i # j => doc.tops[i].name # doc.tops[j].name
  /\ NoCycles(doc)
  /\ \A i \in 1..Len(doc.tops) : TopRuns(doc, doc.tops[i])

(***************************************************************************)
(* Values                                                                   *)
(***************************************************************************)
Floats == {"float", "double"}
Machine == Fac!Machine
MeaningOf(b, s) ==                         \* two texts of one meaning are the same value
  CASE b \in Fac!DateTypes \cup Fac!NumTypes \cup {"duration"} -> Fac!Meaning(b, s)
    [] b \in DOMAIN Machine -> Fac!Meaning("integer", s)
    [] b \in Floats -> Fac!DecimalMeaning(s)
    [] b = "boolean" -> [v |-> IF s \in {"true", "false", "1", "0"} THEN "ok" ELSE "bad", val |-> IF s \in {"true", "1"} THEN "1" ELSE "0"]
    [] OTHER -> [v |-> "ok", val |-> s]
InBuiltin(b, s) ==
  /\ MeaningOf(b, s).v = "ok"
  /\ b \in DOMAIN Machine => /\ Fac!NumOrder(s, Machine[b][1]) # "lt" /\ Fac!NumOrder(s, Machine[b][2]) # "gt"
                             /\ (Machine[b][1] = "0" => Ch(s, 1) # "-")
SameBuiltin(b, x, y) == MeaningOf(b, x) = MeaningOf(b, y) /\ MeaningOf(b, x).v = "ok"

RECURSIVE Split(_)                          \* words
Split(s) == IF s = "" THEN <<>>
            ELSE LET i == Fac!Index(s, 1, " ") IN
                 IF i = 0 THEN <<s>> ELSE IF i = 1 THEN Split(SubSeq(s, 2, Len(s)))
                 ELSE <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)))

(* The built-in type at the bottom of a restriction.                         *)
RECURSIVE Bottom(_, _)
Bottom(doc, T) == IF T.k = "bi" THEN T.n ELSE Bottom(doc, QType(doc, T.st.base))
ItemType(doc, st) == IF st.ty.k = "q" THEN QType(doc, st.ty.q) ELSE QType(doc, st.ty.st.base)
(* Members of a union, with the names of their variants.                     *)
UnionMembers(doc, st) ==
  [i \in 1..Len(st.qs) |-> [id |-> TypeIdent(st.qs[i]), ty |-> QType(doc, st.qs[i])]]
  \o [i \in 1..Len(st.sts) |-> [id |-> "EnumCase" \o ToString(i - 1), ty |-> [k |-> "st", st |-> st.sts[i]]]]
FirstMember(doc, st, s) ==
  LET ms == UnionMembers(doc, st)
      fit == {i \in 1..Len(ms) : InBuiltin(Bottom(doc, ms[i].ty), s)}
  IN IF fit = {} THEN 0 ELSE CHOOSE i \in fit : \A j \in fit : i <= j
SameValue(doc, T, x, y) ==
  IF T.k = "bi" THEN SameBuiltin(T.n, x, y)
  ELSE CASE T.st.k = "rst" -> IF IsEnumeration(T.st) THEN x = y /\ x \in Range(EnumValues(T.st)) ELSE SameBuiltin(Bottom(doc, T), x, y)
         [] T.st.k = "list" -> LET a == Split(x)
                                   b == Split(y)
                                   B == Bottom(doc, ItemType(doc, T.st))
                               IN Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameBuiltin(B, a[i], b[i])
         [] OTHER -> LET m == FirstMember(doc, T.st, x) IN
                     m # 0 /\ SameBuiltin(Bottom(doc, UnionMembers(doc, T.st)[m].ty), x, y)

(***************************************************************************)
(* Equivalence of documents                                                 *)
(***************************************************************************)
NamesOfKids(a) == [i \in 1..Len(a.k) |-> a.k[i].n]
RECURSIVE OwnNames(_, _)                     \* one set of names per level of extension
OwnNames(doc, ct) == <<{PartName(Own(ct)[i].p) : i \in 1..Len(Own(ct))}>> \o (IF ct.m = "ext" THEN OwnNames(doc, BaseCt(doc, ct)) ELSE <<>>)
RECURSIVE Ordered(_, _)                      \* is the order of the elements of the type given by it?
Ordered(doc, ct) == IF ct.m = "ext" THEN <<ct.inner # "all">> \o Ordered(doc, BaseCt(doc, ct)) ELSE <<ct.m # "all">>
Only(s, S) == SelectSeq(s, LAMBDA x : x.n \in S)

(* Why b is not the same as a: a set of reasons.                             *)
RECURSIVE Differ(_, _, _, _)
KidsDiffer(doc, T, a, b) ==
  LET cs == Children(doc, T.ct)
      known == {PartName(cs[i].p) : i \in 1..Len(cs)}
      levels == OwnNames(doc, T.ct)
      ord == Ordered(doc, T.ct)
      strangers == {b.k[i].n : i \in 1..Len(b.k)} \ known
  IN {<<"unexpected element", n, "in", a.n>> : n \in strangers}
     \cup {<<"order of elements", a.n>> : l \in {m \in 1..Len(levels) : ord[m] /\
              NamesOfKids([k |-> Only(a.k, levels[m])]) # NamesOfKids([k |-> Only(b.k, levels[m])])}}
     \cup UNION {LET c == cs[i]
                     n == PartName(c.p)
                     x == Only(a.k, {n})
                     y == Only(b.k, {n})
                     CT == PartType(doc, c.p)
                 IN IF Len(x) # Len(y) THEN {<<"number of", n, "in", a.n>>}
                    ELSE UNION {Differ(doc, CT, x[j], y[j])
                                \cup (IF y[j].ns = doc.tns \/ (c.alt /\ y[j].ns = "") THEN {} ELSE {<<"namespace of", n>>}) : j \in 1..Len(x)}
                 : i \in 1..Len(cs)}
AttrsDiffer(doc, T, a, b) ==
  LET as == IF T.k = "ct" THEN Attrs(doc, T.ct) ELSE <<>>
      val(t, n) == LET s == SelectSeq(t.a, LAMBDA x : x.n = n /\ x.ns = "") IN IF s = <<>> THEN <<>> ELSE <<s[1].v>>
  IN {<<"unexpected attribute", b.a[i].n, "in", a.n>> : i \in {j \in 1..Len(b.a) : b.a[j].ns # "" \/ \A m \in 1..Len(as) : as[m].name # b.a[j].n}}
     \cup {<<"attribute", as[i].name, "of", a.n>> : i \in {j \in 1..Len(as) :
             LET x == val(a, as[j].name)
                 y == val(b, as[j].name)
             IN Len(x) # Len(y) \/ (x # <<>> /\ ~SameValue(doc, AttrType(doc, as[j]), x[1], y[1]))}}
Differ(doc, T, a, b) ==
  (IF b.n = a.n THEN {} ELSE {<<"name", a.n, b.n>>})
  \cup AttrsDiffer(doc, T, a, b)
  \cup (IF T.k = "ct" THEN KidsDiffer(doc, T, a, b) \cup (IF b.t = "" THEN {} ELSE {<<"unexpected text in", a.n>>})
        ELSE IF b.k # <<>> THEN {<<"unexpected children of", a.n>>}
        ELSE IF SameValue(doc, T, a.t, b.t) THEN {} ELSE {<<"value of", a.n, a.t, b.t>>})

(***************************************************************************)
(* Is a document one of the type?                                           *)
(***************************************************************************)
ValidText(doc, T, s) == SameValue(doc, T, s, s)
RECURSIVE Fits(_, _, _, _)                   \* a sequence of elements against particles
RECURSIVE ValidTree(_, _, _)
Bounded(p, n) == LET lo == Bare(p.min)
                     hi == Bare(p.max)
                     num(t) == IF t = "" THEN 1 ELSE Fac!Num(t)
                 IN n >= num(lo) /\ (hi = "unbounded" \/ n <= num(hi))
RECURSIVE Run(_, _, _)                        \* how many elements from i on have the name
Run(k, i, n) == IF i <= Len(k) /\ k[i].n = n THEN 1 + Run(k, i + 1, n) ELSE 0
Fits(doc, parts, k, i) ==
  IF parts = <<>> THEN i = Len(k) + 1
  ELSE LET p == Head(parts) IN
       IF p.k = "any" THEN Fits(doc, Tail(parts), k, i)
       ELSE IF p.k = "choice" THEN \E j \in 1..Len(p.parts) : Fits(doc, <<p.parts[j]>> \o Tail(parts), k, i)
       ELSE LET n == Run(k, i, PartName(p)) IN
            /\ Bounded(p, n)
            /\ \A j \in i..(i + n - 1) : ValidTree(doc, PartType(doc, p), k[j])
            /\ Fits(doc, Tail(parts), k, i + n)
AllFit(doc, all, k) ==
  LET parts == SelectSeq(all, LAMBDA p : p.k # "any") IN
  /\ \A i \in 1..Len(k) : \E j \in 1..Len(parts) : PartName(parts[j]) = k[i].n
  /\ \A j \in 1..Len(parts) : LET x == Only(k, {PartName(parts[j])}) IN
       Bounded(parts[j], Len(x)) /\ \A i \in 1..Len(x) : ValidTree(doc, PartType(doc, parts[j]), x[i])
RECURSIVE ContentFits(_, _, _)
ContentFits(doc, ct, k) ==
  LET mode == IF ct.m = "ext" THEN ct.inner ELSE ct.m
      own(s) == CASE mode \in {"empty", "none"} -> s = <<>>
                  [] mode = "seq" -> Fits(doc, ct.parts, s, 1)
                  [] mode = "choice" -> \E j \in 1..Len(ct.parts) : Fits(doc, <<ct.parts[j]>>, s, 1)
                  [] mode = "all" -> AllFit(doc, ct.parts, s)
  IN IF ct.m = "ext"
     THEN \E i \in 0..Len(k) : ContentFits(doc, BaseCt(doc, ct), SubSeq(k, 1, i)) /\ own(SubSeq(k, i + 1, Len(k)))
     ELSE own(k)
AttrsFit(doc, ct, a) ==
  LET as == Attrs(doc, ct) IN
  /\ NoDup([i \in 1..Len(a) |-> a[i].n])
  /\ \A i \in 1..Len(a) : \E j \in 1..Len(as) : as[j].name = a[i].n /\ as[j].use # "prohibited" /\ ValidText(doc, AttrType(doc, as[j]), a[i].v)
  /\ \A j \in 1..Len(as) : as[j].use = "required" => \E i \in 1..Len(a) : a[i].n = as[j].name
ValidTree(doc, T, t) ==
  IF T.k = "ct" THEN t.t = "" /\ AttrsFit(doc, T.ct, t.a) /\ ContentFits(doc, T.ct, t.k)
  ELSE t.a = <<>> /\ t.k = <<>> /\ ValidText(doc, T, t.t)

(* yaserde takes an element named like one of the members of its type for     *)
(* that member (unless it is called like the struct, and has no alternatives); *)
(* an enumeration, for its value; an alternative reads true and false only;   *)
(* markup in an attribute of a user's type is lost.  A whole float is written *)
(* like an integer, which may be another member of a union.                   *)
WrittenAs(b, s) == IF b \in Floats /\ Fac!Exact(s)[3] = "" THEN Fac!Exact(s)[2] ELSE s
NoMarkup(s) == \A i \in 1..Len(s) : Ch(s, i) \notin {"<", "&"}
RECURSIVE ReadableKids(_, _, _)
Readable(doc, T, t, top) ==
  IF T.k = "st"
  THEN CASE IsEnumeration(T.st) -> /\ t.n \notin Range(EnumValues(T.st))
                                   /\ top => TypeIdent(t.n) \notin Range(EnumValues(T.st))
         [] T.st.k = "union" -> LET m == FirstMember(doc, T.st, t.t) IN
                                FirstMember(doc, T.st, WrittenAs(Bottom(doc, UnionMembers(doc, T.st)[m].ty), t.t)) = m
         [] OTHER -> TRUE
  ELSE T.k = "ct" =>
    LET cs == Children(doc, T.ct)
        names == {PartName(cs[i].p) : i \in 1..Len(cs)}
        alts == \E i \in 1..Len(cs) : cs[i].alt
        as == Attrs(doc, T.ct)
    IN /\ \A i \in 1..Len(t.a) : \A j \in 1..Len(as) :
            (as[j].name = t.a[i].n /\ AttrType(doc, as[j]).k = "st") => NoMarkup(t.a[i].v)
       /\ t.n \in names => top /\ TypeIdent(t.n) = t.n /\ ~alts
       /\ (top /\ alts) => TypeIdent(t.n) \notin names
       /\ ReadableKids(doc, T, t)
ReadableKids(doc, T, t) ==
  LET cs == Children(doc, T.ct) IN
  \A i \in 1..Len(t.k) : LET c == CHOOSE j \in 1..Len(cs) : PartName(cs[j].p) = t.k[i].n
                         IN /\ Readable(doc, PartType(doc, cs[c].p), t.k[i], FALSE)
                            /\ (cs[c].alt /\ PartType(doc, cs[c].p) = Bi("boolean")) => t.k[i].t \in {"true", "false"}
=============================================================================
