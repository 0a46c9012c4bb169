------------------------------ MODULE XsdProps -----------------------------
(* The properties, stated on documents and definitions without reference to *)
(* how Items computes the latter; model checked on the families.            *)
EXTENDS XsdFamilies

StructAt(items, path, name) == CHOOSE i \in Range(items) : i.k = "struct" /\ i.path = path /\ i.name = name
HasStruct(items, path, name) == \E i \in Range(items) : i.k = "struct" /\ i.path = path /\ i.name = name

(* complex types with a struct at the top: <<name, content>>                *)
TopCts(doc) == {<<doc.tops[n].name, CtOfTop(doc.tops[n])>> : n \in {m \in 1..Len(doc.tops) : IsComplexTop(doc.tops[m])}}

FieldsNamed(s, src, xml) == {n \in 1..Len(s.fields) : s.fields[n].src = src /\ s.fields[n].xml = xml}

(***************************************************************************)
(* Occurrences: the table of the allowed numbers of occurrences.            *)
(***************************************************************************)
\* how often may it occur: a lower and an upper bound (3 stands for "more")
Zero == {"0", "00", "+0", " 0 "}
One == {"", "1", "01", " 1"}
LowOf(m) == CASE m \in One -> 1 [] m \in Zero -> 0 [] OTHER -> 2
HighOf(m) == CASE m \in One -> 1 [] m \in Zero -> 0 [] OTHER -> 3
Holder(low, high) == \* the least container that can hold any number in low..high
  CASE high = 0 /\ low = 0 -> "absent"
    [] high = 1 /\ low = 0 -> "O"
    [] high = 1 /\ low = 1 -> ""
    [] OTHER -> "V"
PartName(p) == IF p.k = "ref" THEN Local(p.q) ELSE p.name
PartTypeShell(doc, p) ==
  LET q == IF p.k = "ref" THEN p.q ELSE IF p.ty.k = "q" THEN p.ty.q ELSE "" IN
  IF q # "" /\ IsBuiltin(doc, q) THEN Shell(Builtins[Local(q)]) ELSE ""
SelfQ(doc, name, q) == q = Tq(doc, name) /\ ~IsBuiltin(doc, q)
IsSelf(doc, name, p) == (p.k = "el" /\ p.ty.k = "q" /\ SelfQ(doc, name, p.ty.q)) \/ (p.k = "ref" /\ SelfQ(doc, name, p.q))
PropCard(doc, items) ==
  \A t \in TopCts(doc) :
    HasStruct(items, <<>>, TypeIdent(t[1])) =>
    LET s == StructAt(items, <<>>, TypeIdent(t[1])) IN
    /\ t[2].m \in {"seq", "all", "ext"} /\ t[2].inner # "choice" =>
       \A n \in 1..Len(t[2].parts) :
         LET p == t[2].parts[n] IN
         p.k \in {"el", "ref"} =>
           LET h == Holder(LowOf(p.min), HighOf(p.max))
               f == FieldsNamed(s, "el", PartName(p)) IN
           IF IsSelf(doc, t[1], p) THEN \A m \in f : Shell(s.fields[m].ty) = "V"
           ELSE IF h = "absent" THEN f = {}
           ELSE /\ Cardinality(f) = 1
                /\ \A m \in f : Shell(s.fields[m].ty) = h \o PartTypeShell(doc, p)
    /\ \A n \in 1..Len(t[2].attrs) :
         LET a == t[2].attrs[n] IN
         a.k \in {"at", "ref"} =>
           LET f == FieldsNamed(s, "at", IF a.k = "ref" THEN Local(a.q) ELSE a.name) IN
           IF a.use = "prohibited" THEN f = {}
           ELSE /\ Cardinality(f) = 1
                /\ \A m \in f : StartsWith(s.fields[m].ty, "Option<") = (a.use # "required")

(***************************************************************************)
(* Members: nothing is lost, doubled, invented or moved.                    *)
(***************************************************************************)
DocOrder(s, names) == \* the members with these names come in this order
  \A i, j \in 1..Len(names) : i < j =>
    \A m \in {x \in 1..Len(s.fields) : s.fields[x].xml = names[i]}, n \in {x \in 1..Len(s.fields) : s.fields[x].xml = names[j]} : m < n
PropMember(doc, items) ==
  /\ \A i \in Range(Structs(items)) : \* XML names are unique within a kind
       \A m, n \in 1..Len(i.fields) : m # n => <<i.fields[m].src, i.fields[m].pre, i.fields[m].xml, i.fields[m].id>> # <<i.fields[n].src, i.fields[n].pre, i.fields[n].xml, i.fields[n].id>>
  /\ \A t \in TopCts(doc) :
       HasStruct(items, <<>>, TypeIdent(t[1])) =>
       LET s == StructAt(items, <<>>, TypeIdent(t[1]))
           els == SelectSeq(t[2].parts, LAMBDA p : p.k \in {"el", "ref"} /\ Holder(LowOf(p.min), HighOf(p.max)) # "absent")
           ats == SelectSeq(t[2].attrs, LAMBDA a : a.k \in {"at", "ref"} /\ a.use # "prohibited")
       IN /\ t[2].m \in {"seq", "all"} =>
               /\ DocOrder(s, [n \in 1..Len(els) |-> PartName(els[n])])
               /\ Cardinality({n \in 1..Len(s.fields) : s.fields[n].src = "el"}) = Len(els)
          /\ DocOrder(s, [n \in 1..Len(ats) |-> IF ats[n].k = "ref" THEN Local(ats[n].q) ELSE ats[n].name])
          /\ (t[2].m # "ext" /\ \A n \in 1..Len(t[2].attrs) : t[2].attrs[n].k # "ag") =>
               Cardinality({n \in 1..Len(s.fields) : s.fields[n].src = "at"}) = Len(ats)

(***************************************************************************)
(* Inheritance: a derived type has every member of its base, as it is there;*)
(* the order of the components does not matter.                             *)
(***************************************************************************)
Tops(doc) == Range(doc.tops)
NestedIn(path, s) == path = <<>>
SameField(f, g, sname, bname) == \* types of anonymous members are in the module of each struct
  /\ f.id = g.id /\ f.src = g.src /\ f.pre = g.pre /\ f.xml = g.xml
  /\ Shell(f.ty) = Shell(g.ty)
PropInherit(doc, items) ==
  /\ \A t \in TopCts(doc) : \A b \in TopCts(doc) :
       (t[2].m = "ext" /\ t[2].base = Tq(doc, b[1])) =>
         LET s == StructAt(items, <<>>, TypeIdent(t[1]))
             sb == StructAt(items, <<>>, TypeIdent(b[1]))
         IN \A n \in 1..Len(sb.fields) : \E m \in 1..Len(s.fields) :
              /\ s.fields[m].id = sb.fields[n].id
              /\ \/ SameField(s.fields[m], sb.fields[n], t[1], b[1])
                 \/ \E k \in 1..Len(t[2].parts) : t[2].parts[k].k = "el" /\ t[2].parts[k].name = sb.fields[n].xml  \* redeclared
  /\ LET rev == [doc EXCEPT !.tops = [n \in 1..Len(doc.tops) |-> doc.tops[Len(doc.tops) + 1 - n]]]
     IN Range(Items(rev)) = Range(items)

(***************************************************************************)
(* Choices: one enum per choice, one member that holds it, one variant per  *)
(* alternative, one for what is unknown.                                    *)
(***************************************************************************)
PropChoice(doc, items) ==
  \A t \in TopCts(doc) :
    LET whole == (t[2].m = "choice" \/ (t[2].m = "ext" /\ t[2].inner = "choice")) /\ t[2].parts # <<>>
        inseq == {n \in 1..Len(t[2].parts) : t[2].parts[n].k = "choice"}
        alts  == IF whole THEN t[2].parts ELSE IF inseq # {} THEN t[2].parts[CHOOSE n \in inseq : TRUE].parts ELSE <<>>
        s == StructAt(items, <<>>, TypeIdent(t[1]))
        own == {n \in 1..Len(s.fields) : s.fields[n].src = "ch" /\ s.fields[n].id = FieldIdent(t[1] \o "Choice")}
    IN (whole \/ inseq # {}) =>
       /\ Cardinality(own) = 1
       /\ LET es == {i \in Range(Enums(items)) : i.name = TypeIdent(t[1] \o "Choice") /\ i.path = (IF t[2].m = "choice" THEN <<>> ELSE <<ModIdent(t[1])>>)}
          IN /\ Cardinality(es) = 1
             /\ \A e \in es :
                  /\ Len(e.cases) = Cardinality({n \in 1..Len(alts) : alts[n].k \in {"el", "ref"}}) + 1
                  /\ \A n \in own : s.fields[n].ty = (IF t[2].m = "choice" THEN e.name ELSE ModIdent(t[1]) \o "::" \o e.name)

(***************************************************************************)
(* Types of values: of this schema's types, built-in or of another          *)
(* namespace; never a made up one.                                          *)
(***************************************************************************)
RECURSIVE Segments(_)
Segments(t) == LET c == Colon(t) IN
  IF c = 0 THEN <<t>> ELSE <<SubSeq(t, 1, c - 1)>> \o Segments(SubSeq(t, c + 2, Len(t)))
UsesOf(items) ==
  UNION { CASE i.k = "struct" -> {[path |-> i.path, segs |-> Segments(Core(i.fields[n].ty))] : n \in 1..Len(i.fields)}
            [] i.k = "enum"   -> {[path |-> i.path, segs |-> Segments(Core(i.cases[n].ty))] : n \in {m \in 1..Len(i.cases) : i.cases[m].ty # ""}}
            [] i.k = "tuple"  -> {[path |-> i.path, segs |-> Segments(Core(i.ty))]}
            [] OTHER -> {} : i \in Range(items) }
PropResolve(doc, items) == \A u \in UsesOf(items) : Resolves(doc, items, u)

(* Every definition's module exists.                                        *)
PropNest(doc, items) ==
  /\ PropResolve(doc, items)
  /\ \A i \in Range(items) : i.path # <<>> =>
        IsMod(items, SubSeq(i.path, 1, Len(i.path) - 1), i.path[Len(i.path)])

(***************************************************************************)
(* Names: legal, and never one for two.                                     *)
(***************************************************************************)
PropIdent(doc, items) == Distinct(items)

(* Simple types: one definition for each.                                   *)
PropSimple(doc, items) ==
  \A t \in {x \in Tops(doc) : x.k = "st"} :
    LET ds == {i \in Range(items) : i.path = <<>> /\ i.k \in {"enum", "tuple"} /\ i.name = TypeIdent(t.name)} IN
    /\ Cardinality(ds) = 1
    /\ \A d \in ds :
         CASE t.st.k = "list"  -> d.k = "tuple" /\ StartsWith(d.ty, "Vec<")
           [] t.st.k = "union" -> d.k = "enum" /\ Len(d.cases) = Len(t.st.qs) + Len(t.st.sts) + 1
           [] OTHER -> LET vs == {t.st.facets[n].v : n \in {m \in 1..Len(t.st.facets) : t.st.facets[m].f = "enumeration"}} IN
                       IF vs = {} \/ \E v \in vs : ~SimpleValue(v) THEN d.k = "tuple" /\ Shell(d.ty) = Shell(TypePath(doc, t.st.base))
                       ELSE d.k = "enum" /\ {d.cases[n].xml : n \in 1..Len(d.cases)} = vs \cup {"__Unknown__"}

Prop(n, doc, items) ==
  CASE n = "card"    -> PropCard(doc, items)
    [] n = "member"  -> PropMember(doc, items)
    [] n = "inherit" -> PropInherit(doc, items)
    [] n = "simple"  -> PropSimple(doc, items)
    [] n = "type"    -> PropResolve(doc, items)
    [] n = "name"    -> PropIdent(doc, items)
    [] n = "choice"  -> PropChoice(doc, items)
    [] n = "nest"    -> PropNest(doc, items)
AllProps(doc, items) == \A n \in {"card", "member", "inherit", "simple", "name", "choice", "nest"} : Prop(n, doc, items)
=============================================================================
