------------------------------- MODULE Xsd --------------------------------
(* The meaning of a schema document: the Rust definitions it stands for.    *)
(*                                                                          *)
(* A document is a record                                                   *)
(*   [xp, tp, tns, tops]                                                    *)
(* xp:   prefix bound to the XML Schema namespace ("" = default namespace)  *)
(* tp:   prefix bound to the target namespace ("" = default namespace)      *)
(* tns:  URI of the target namespace ("" = the schema has none)             *)
(* tops: the top-level components, in document order:                       *)
(*   [k |-> "ct", name, ct]        complexType                              *)
(*   [k |-> "st", name, st]        simpleType                               *)
(*   [k |-> "el", name, ty]        element                                  *)
(*   [k |-> "at", name, ty]        attribute                                *)
(*   [k |-> "ag", name, attrs]     attributeGroup                           *)
(*   [k |-> "import", ns, loc], [k |-> "include", loc]                      *)
(* ty (of elements and attributes): [k |-> "q", q], [k |-> "ct", ct],       *)
(*   [k |-> "st", st] or [k |-> "none"]                                     *)
(* ct: [m, inner, base, parts, attrs], m one of "empty", "seq", "all",      *)
(*   "choice", "ext", "rst" (complexContent), "sext" (simpleContent);       *)
(*   for "ext"/"rst" inner is "none", "seq", "all" or "choice"              *)
(* parts: [k |-> "el", name, ty, min, max], [k |-> "ref", q, min, max],     *)
(*   [k |-> "any"], [k |-> "choice", parts]; min/max are strings,           *)
(*   "" when the attribute is absent                                        *)
(* attrs: [k |-> "at", name, ty, use], [k |-> "ref", q, use],               *)
(*   [k |-> "ag", q], [k |-> "any"]; use is "" when absent                  *)
(* st: [k |-> "rst", base, facets], facets: [f, v]                          *)
(*     [k |-> "list", ty], [k |-> "union", qs, sts]                         *)
(*                                                                          *)
(* Items(doc) is what the generator has to produce, as a sequence of        *)
(*   [k |-> "struct", path, name, derives, yp, yns, fields, impls]          *)
(*   [k |-> "enum",   path, name, derives, yp, yns, cases, impls]           *)
(*   [k |-> "tuple",  path, name, derives, ty, impls]                       *)
(*   [k |-> "mod",    path, name, super]                                    *)
(* path is the sequence of modules around the definition.                   *)
EXTENDS Naming, FiniteSets, Integers, TLC

(***************************************************************************)
(* Types                                                                    *)
(***************************************************************************)

(* The mapping promised by the README.                                      *)
Builtins == [
  hexBinary |-> "String", base64Binary |-> "String", boolean |-> "bool",
  integer |-> "xs::Integer", nonNegativeInteger |-> "xs::NonNegativeInteger",
  positiveInteger |-> "xs::PositiveInteger", nonPositiveInteger |-> "xs::NonPositiveInteger",
  negativeInteger |-> "xs::NegativeInteger",
  long |-> "i64", int |-> "i32", short |-> "i16", byte |-> "i8",
  unsignedLong |-> "u64", unsignedInt |-> "u32", unsignedShort |-> "u16", unsignedByte |-> "u8",
  decimal |-> "xs::Decimal", double |-> "f64", float |-> "f64",
  date |-> "xs::Date", time |-> "xs::Time", dateTime |-> "xs::DateTime",
  dateTimeStamp |-> "xs::DateTimeStamp", duration |-> "xs::Duration",
  gDay |-> "xs::GDay", gMonth |-> "xs::GMonth", gMonthDay |-> "xs::GMonthDay",
  gYear |-> "xs::GYear", gYearMonth |-> "xs::GYearMonth",
  string |-> "String", normalizedString |-> "String", token |-> "String",
  language |-> "String", Name |-> "String", NCName |-> "String", ENTITY |-> "String",
  ID |-> "String", IDREF |-> "String", NMTOKEN |-> "String", anyURI |-> "String",
  QName |-> "String", NOTATION |-> "String", anySimpleType |-> "String",
  ENTITIES |-> "Vec<String>", IDREFS |-> "Vec<String>", NMTOKENS |-> "Vec<String>"]

IsBuiltin(doc, q) == Prefix(q) = doc.xp /\ Local(q) \in DOMAIN Builtins

(* A reference to a definition of another namespace stays qualified.        *)
Foreign(doc, q) == HasPrefix(q) /\ ~(doc.tns # "" /\ Prefix(q) = doc.tp)

TypePath(doc, q) ==
  IF IsBuiltin(doc, q) THEN Builtins[Local(q)]
  ELSE IF Foreign(doc, q) THEN ModuleOf(Prefix(q)) \o "::" \o TypeIdent(q)
  ELSE TypeIdent(q)

(* Does q name a component of this document (of the target namespace)?      *)
InTarget(doc, q) == IF HasPrefix(q) THEN doc.tns # "" /\ Prefix(q) = doc.tp
                    ELSE TRUE

(***************************************************************************)
(* Cardinality                                                              *)
(***************************************************************************)

(* Occurrence bounds: the least number and whether there may be more than   *)
(* one; a missing attribute means 1.  A bound is a nonNegativeInteger, of    *)
(* any size, with any number of leading zeros, and spaces around it.        *)
RECURSIVE Bare(_)
Bare(o) == IF Len(o) > 0 /\ Ch(o, Len(o)) = " " THEN Bare(SubSeq(o, 1, Len(o) - 1))
           ELSE IF Len(o) > 1 /\ Ch(o, 1) \in {"0", "+", " "} THEN Bare(SubSeq(o, 2, Len(o)))
           ELSE o
OccOf(o) == LET b == Bare(o) IN IF b = "" THEN 1 ELSE IF b = "0" THEN 0 ELSE IF b = "1" THEN 1 ELSE 2
                                                   \* 2 stands for "many" ("unbounded" too)
MinOf(o) == OccOf(o)
MaxOf(o) == OccOf(o)
Wrap(min, max) ==
  LET lo == MinOf(min)
      hi == MaxOf(max)
  IN IF lo = 0 /\ hi = 0 THEN "omit"
     ELSE IF hi > 1 \/ lo > 1 THEN "vec"
     ELSE IF lo = 0 THEN "opt"
     ELSE "one"

UseWrap(use) == CASE use = "required"   -> "one"
                  [] use = "prohibited" -> "omit"
                  [] OTHER              -> "opt"

Wrapped(w, t) == CASE w = "vec" -> "Vec<" \o t \o ">"
                   [] w = "opt" -> "Option<" \o t \o ">"
                   [] OTHER     -> t

(***************************************************************************)
(* Members of a complex type                                                *)
(***************************************************************************)

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]

(* A member: src "el", "at" or "ch" (choice); name: its XML name; wrap; ty; *)
(* owner: for choices, the name of the element or type the choice belongs   *)
(* to; parts: for choices, the alternatives; top: the enum of a choice that *)
(* is the whole content stands beside the struct, not in its module.        *)
NoTy == [k |-> "none"]

(* What the documentation of a component says (words; none if undocumented).*)
DocOf(c) == IF "doc" \in DOMAIN c THEN c.doc ELSE <<>>

ElMember(owner, p) ==
  IF p.k = "choice"
  THEN [src |-> "ch", name |-> owner \o "Choice", wrap |-> "one", ty |-> NoTy,
        parts |-> p.parts, top |-> FALSE, rec |-> FALSE, doc |-> <<>>]
  ELSE IF p.k = "any"
  THEN [src |-> "el", name |-> "any", wrap |-> "omit", ty |-> NoTy,
        parts |-> <<>>, top |-> FALSE, rec |-> FALSE, doc |-> DocOf(p)]
  ELSE IF p.k = "ref"
  THEN [src |-> "el", name |-> p.q, wrap |-> Wrap(p.min, p.max), ty |-> [k |-> "q", q |-> p.q],
        parts |-> <<>>, top |-> FALSE, rec |-> FALSE, doc |-> DocOf(p)]
  ELSE [src |-> "el", name |-> p.name, wrap |-> Wrap(p.min, p.max), ty |-> p.ty,
        parts |-> <<>>, top |-> FALSE, rec |-> FALSE, doc |-> DocOf(p)]

(* A member whose type is the type it belongs to has to be behind a Vec.    *)
MarkRec(doc, owner, m) ==
  IF m.src = "el" /\ m.ty.k = "q" /\ Local(m.ty.q) = owner /\ InTarget(doc, m.ty.q)
     /\ ~IsBuiltin(doc, m.ty.q)
  THEN [m EXCEPT !.rec = TRUE] ELSE m

AtMember(a) ==
  IF a.k = "any"
  THEN [src |-> "at", name |-> "any_attribute", wrap |-> "omit", ty |-> NoTy,
        parts |-> <<>>, top |-> FALSE, rec |-> FALSE, doc |-> DocOf(a)]
  ELSE IF a.k = "ref"
  THEN [src |-> "at", name |-> a.q, wrap |-> UseWrap(a.use), ty |-> [k |-> "q", q |-> a.q],
        parts |-> <<>>, top |-> FALSE, rec |-> FALSE, doc |-> DocOf(a)]
  ELSE [src |-> "at", name |-> a.name, wrap |-> UseWrap(a.use), ty |-> a.ty,
        parts |-> <<>>, top |-> FALSE, rec |-> FALSE, doc |-> DocOf(a)]

IsAg(a)  == a.k = "ag"
NotAg(a) == a.k # "ag"

TopsOf(doc, kinds) == SelectSeq(doc.tops, LAMBDA t : t.k \in kinds)

GroupNamed(doc, n) == SelectSeq(TopsOf(doc, {"ag"}), LAMBDA t : t.name = n)

(* All attributes of an attribute group, those of the groups it refers to   *)
(* included.                                                                *)
RECURSIVE GroupMembers(_, _)
GroupMembers(doc, q) ==
  LET g == GroupNamed(doc, Local(q)) IN
  IF g = <<>> THEN <<>>
  ELSE LET own == SelectSeq(g[1].attrs, NotAg)
           sub == SelectSeq(g[1].attrs, IsAg)
       IN Map(AtMember, own) \o Concat([i \in 1..Len(sub) |-> GroupMembers(doc, sub[i].q)])

AttrMembers(ct) == Map(AtMember, SelectSeq(ct.attrs, NotAg))
AgMembers(doc, ct) == LET gs == SelectSeq(ct.attrs, IsAg)
                      IN Concat([i \in 1..Len(gs) |-> GroupMembers(doc, gs[i].q)])

PartMembers(doc, owner, parts) ==
  [i \in 1..Len(parts) |-> MarkRec(doc, owner, ElMember(owner, parts[i]))]

ChoiceMember(owner, parts, top) ==
  [src |-> "ch", name |-> owner \o "Choice", wrap |-> "one", ty |-> NoTy,
   parts |-> parts, top |-> top, rec |-> FALSE, doc |-> <<>>]

(* The complex type a base refers to: a named type, or the anonymous type   *)
(* of a global element.                                                     *)
IsComplexTop(t) == t.k = "ct" \/ (t.k = "el" /\ t.ty.k = "ct")
CtOfTop(t) == IF t.k = "ct" THEN t.ct ELSE t.ty.ct
BaseTop(doc, q) == SelectSeq(doc.tops, LAMBDA t : IsComplexTop(t) /\ t.name = Local(q))

(* Base members are inherited after the own ones; one with the name of an   *)
(* own member is replaced by it.                                            *)
Inherit(own, base) ==
  own \o SelectSeq(base, LAMBDA m : \A i \in 1..Len(own) : own[i].name # m.name)

RECURSIVE Members(_, _, _)
Members(doc, owner, ct) ==
  LET attrs == AttrMembers(ct)
      ags   == AgMembers(doc, ct)
  IN
  CASE ct.m = "empty"          -> attrs \o ags
    [] ct.m \in {"seq", "all"} -> PartMembers(doc, owner, ct.parts) \o attrs \o ags
    [] ct.m = "choice"         ->
         IF ct.parts = <<>> THEN attrs \o ags
         ELSE attrs \o <<ChoiceMember(owner, ct.parts, TRUE)>> \o ags
    [] OTHER                   -> \* "ext", "rst", "sext"
         LET own == CASE ct.inner \in {"seq", "all"} ->
                           PartMembers(doc, owner, ct.parts) \o attrs \o ags
                      [] ct.inner = "choice" ->
                           attrs \o <<ChoiceMember(owner, ct.parts, FALSE)>> \o ags
                      [] OTHER -> attrs \o ags
             b == BaseTop(doc, ct.base)
             inherited == IF b = <<>> \/ IsBuiltin(doc, ct.base) \/ ~InTarget(doc, ct.base) THEN <<>>
                          ELSE Members(doc, b[1].name, CtOfTop(b[1]))
         IN Inherit(own, inherited)

(***************************************************************************)
(* Definitions                                                              *)
(***************************************************************************)

StructDerives == {"Default", "Clone", "PartialEq", "Debug", "YaSerialize", "YaDeserialize"}
EnumDerives   == {"PartialEq", "Debug", "Clone", "YaSerialize", "YaDeserialize"}
UnionDerives  == {"PartialEq", "Debug", "UtilsUnionSerDe"}
TupleDerives  == {"Default", "Clone", "PartialEq", "Debug", "UtilsTupleIo", "UtilsDefaultSerde"}

(* The namespace declared on structs and enums.                             *)
YaPrefix(doc) == IF doc.tns = "" THEN "" ELSE doc.tp
YaNs(doc) == IF doc.tns = "" THEN ""
             ELSE IF doc.tp = "" THEN doc.tns
             ELSE doc.tp \o ": " \o doc.tns

(* Type of a member inside the struct named sname: the definition of an     *)
(* anonymous type, or of a choice, is in the module of the struct.          *)
MemberType(doc, sname, m) ==
  IF m.src = "ch"
  THEN IF m.top THEN TypeIdent(m.name)
       ELSE ModIdent(sname) \o "::" \o TypeIdent(m.name)
  ELSE IF m.ty.k = "q" THEN TypePath(doc, m.ty.q)
  ELSE IF m.ty.k = "none" \/ m.src = "at" THEN "String"
  ELSE ModIdent(sname) \o "::" \o TypeIdent(m.name \o "Type")

FieldOf(doc, sname, m) ==
  LET t == MemberType(doc, sname, m) IN
  [id   |-> FieldIdent(m.name),
   ty   |-> IF m.rec THEN Wrapped("vec", t) ELSE Wrapped(m.wrap, t),
   src  |-> m.src,
   pre  |-> IF m.src = "ch" THEN ""
            ELSE IF HasPrefix(m.name) THEN Prefix(m.name)
            ELSE IF m.src = "el" THEN YaPrefix(doc) ELSE "",
   xml  |-> IF m.src = "ch" THEN "" ELSE Local(m.name)]

CaseOf(doc, p) ==
  IF p.k = "ref"
  THEN [id |-> TypeIdent(p.q), ty |-> Wrapped(Wrap(p.min, p.max), TypePath(doc, p.q)),
        pre |-> Prefix(p.q), xml |-> Local(p.q)]
  ELSE [id |-> TypeIdent(p.name),
        ty |-> IF p.ty.k = "q" THEN Wrapped(Wrap(p.min, p.max), TypePath(doc, p.ty.q)) ELSE "",
        pre |-> "", xml |-> p.name]

UnknownCase(t) == [id |-> "__Unknown__", ty |-> t, pre |-> "", xml |-> "__Unknown__"]

ChoiceEnum(doc, path, name, parts) ==
  LET els == SelectSeq(parts, LAMBDA p : p.k \in {"el", "ref"})
  IN [k |-> "enum", path |-> path, name |-> TypeIdent(name), derives |-> EnumDerives,
      yp |-> YaPrefix(doc), yns |-> YaNs(doc),
      cases |-> [i \in 1..Len(els) |-> CaseOf(doc, els[i])] \o <<UnknownCase("String")>>,
      impls |-> {"Default", "Validate"}]

(* Simple types.  owner: the nearest name around, for the enumeration of an *)
(* anonymous list item.                                                     *)
EnumValues(st) == LET es == SelectSeq(st.facets, LAMBDA f : f.f = "enumeration")
                  IN [i \in 1..Len(es) |-> es[i].v]
SimpleValue(v) == v # "" /\ \A i \in 1..Len(v) : Ch(v, i) \in Alnums \cup {"-"}
IsEnumeration(st) ==
  /\ st.k = "rst"
  /\ EnumValues(st) # <<>>
  /\ \A i \in 1..Len(EnumValues(st)) : SimpleValue(EnumValues(st)[i])

EnumItem(doc, path, name, st) ==
  LET vs == EnumValues(st) IN
  [k |-> "enum", path |-> path, name |-> TypeIdent(name), derives |-> EnumDerives,
   yp |-> YaPrefix(doc), yns |-> YaNs(doc),
   cases |-> [i \in 1..Len(vs) |-> [id |-> TypeIdent(vs[i]), ty |-> "", pre |-> "", xml |-> vs[i]]]
             \o <<UnknownCase(TypePath(doc, st.base))>>,
   impls |-> {"Default", "Validate"}]

TupleItem(path, name, ty) ==
  [k |-> "tuple", path |-> path, name |-> TypeIdent(name), derives |-> TupleDerives,
   ty |-> ty, impls |-> {"Validate"}]

(* The type of the items of a list, and the definitions it needs.           *)
RECURSIVE ListItem(_, _, _, _)
ListItem(doc, path, owner, ty) ==
  IF ty.k = "q" THEN [ty |-> TypePath(doc, ty.q), items |-> <<>>]
  ELSE IF ty.st.k = "list"
  THEN LET inner == ListItem(doc, path, owner, ty.st.ty)
       IN [ty |-> Wrapped("vec", inner.ty), items |-> inner.items]
  ELSE IF IsEnumeration(ty.st)
  THEN [ty |-> TypeIdent(owner \o "Enum"),
        items |-> <<EnumItem(doc, path, owner \o "Enum", ty.st)>>]
  ELSE [ty |-> TypePath(doc, ty.st.base), items |-> <<>>]

RECURSIVE StItems(_, _, _, _, _)
StItems(doc, path, owner, name, st) ==
  CASE st.k = "rst" ->
         IF IsEnumeration(st) THEN <<EnumItem(doc, path, name, st)>>
         ELSE <<TupleItem(path, name, TypePath(doc, st.base))>>
    [] st.k = "list" ->
         LET li == ListItem(doc, path, owner, st.ty)
         IN <<TupleItem(path, name, Wrapped("vec", li.ty))>> \o li.items
    [] OTHER -> \* "union"
         LET named == [i \in 1..Len(st.qs) |->
                         [id |-> TypeIdent(st.qs[i]), ty |-> TypePath(doc, st.qs[i]),
                          pre |-> "", xml |-> TypeIdent(st.qs[i])]]
             anon == [i \in 1..Len(st.sts) |->
                         [id |-> "EnumCase" \o ToString(i - 1),
                          ty |-> "EnumCaseType" \o ToString(i - 1),
                          pre |-> "", xml |-> "EnumCase" \o ToString(i - 1)]]
         IN <<[k |-> "enum", path |-> path, name |-> TypeIdent(name), derives |-> UnionDerives,
               yp |-> "", yns |-> "",
               cases |-> named \o anon \o <<UnknownCase("String")>>,
               impls |-> {"Default", "Validate"}]>>
            \o Concat([i \in 1..Len(st.sts) |->
                 StItems(doc, path, owner, "EnumCaseType_" \o ToString(i - 1), st.sts[i])])

(* A struct with the definitions in its module.                             *)
RECURSIVE StructItems(_, _, _, _)
RECURSIVE CtItems(_, _, _, _, _)
StructItems(doc, path, sname, members) ==
  LET kept  == SelectSeq(members, LAMBDA m : m.wrap # "omit")
      mod   == ModIdent(sname)
      inner == Append(path, mod)
      NestedOf(m) ==
        IF m.src = "ch"
        THEN IF m.top THEN <<>> ELSE <<ChoiceEnum(doc, inner, m.name, m.parts)>>
        ELSE IF m.src = "at" THEN <<>>
        ELSE IF m.ty.k = "ct"
        THEN CtItems(doc, inner, m.name, m.name \o "Type", m.ty.ct)
        ELSE IF m.ty.k = "st"
        THEN StItems(doc, inner, m.name, m.name \o "Type", m.ty.st)
        ELSE <<>>
      nested == Concat(Map(NestedOf, members))
  IN <<[k |-> "struct", path |-> path, name |-> TypeIdent(sname), derives |-> StructDerives,
        yp |-> YaPrefix(doc), yns |-> YaNs(doc),
        fields |-> [i \in 1..Len(kept) |-> FieldOf(doc, sname, kept[i])],
        impls |-> {"Validate"}]>>
     \o (IF nested = <<>> THEN <<>>
         ELSE <<[k |-> "mod", path |-> path, name |-> mod, super |-> TRUE]>> \o nested)

(* A complex type; the enum of a choice that is its content comes first.    *)
CtItems(doc, path, owner, sname, ct) ==
  (IF ct.m = "choice" /\ ct.parts # <<>>
   THEN <<ChoiceEnum(doc, path, owner \o "Choice", ct.parts)>> ELSE <<>>)
  \o StructItems(doc, path, sname, Members(doc, owner, ct))

TopItems(doc, t) ==
  CASE t.k = "ct" -> CtItems(doc, <<>>, t.name, t.name, t.ct)
    [] t.k = "st" -> StItems(doc, <<>>, t.name, t.name, t.st)
    [] t.k \in {"el", "at"} ->
         CASE t.ty.k = "ct" -> CtItems(doc, <<>>, t.name, t.name, t.ty.ct)
           [] t.ty.k = "st" -> StItems(doc, <<>>, t.name, t.name, t.ty.st)
           [] t.ty.k = "q"  -> <<>>            \* an alias, only mentioned in a comment
           [] OTHER         -> StructItems(doc, <<>>, t.name, <<>>)
    [] OTHER -> <<>>

Items(doc) == Concat([i \in 1..Len(doc.tops) |-> TopItems(doc, doc.tops[i])])
=============================================================================
