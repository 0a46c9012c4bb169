----------------------------- MODULE XsdDomain -----------------------------
(* The documents the properties speak about, and views of what is generated *)
(* from them.                                                               *)
EXTENDS Xsd, XsdAside

Range(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == Cardinality(Range(s)) = Len(s)

(***************************************************************************)
(* Domain                                                                   *)
(*                                                                          *)
(* Identifiers that would clash, or that have no letter to be made of, are  *)
(* outside: XML tells foo-bar and fooBar apart, the generated Rust does not *)
(* (known findings K-clash, K-empty).                                       *)
(***************************************************************************)
ItemIdentsOk(it) ==
  CASE it.k = "struct" -> /\ LegalIdent(it.name)
                          /\ \A i \in 1..Len(it.fields) : LegalIdent(it.fields[i].id)
                          /\ NoDup([i \in 1..Len(it.fields) |-> it.fields[i].id])
    [] it.k = "enum"   -> /\ LegalIdent(it.name)
                          /\ \A i \in 1..Len(it.cases) : LegalIdent(it.cases[i].id)
                          /\ NoDup([i \in 1..Len(it.cases) |-> it.cases[i].id])
    [] OTHER           -> LegalIdent(it.name)

(* Bounds that allow any number at all: the least is not above the greatest.*)
DigitVal(c) == CHOOSE d \in 0..9 : ToString(d) = c
RECURSIVE AtMost(_, _)                     \* of two numbers with as many digits
AtMost(a, b) == a = "" \/ DigitVal(Ch(a, 1)) < DigitVal(Ch(b, 1))
                \/ (DigitVal(Ch(a, 1)) = DigitVal(Ch(b, 1)) /\ AtMost(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b))))
OccText(o) == IF o = "" THEN "1" ELSE Bare(o)
LegalOcc(min, max) ==
  LET a == OccText(min)
      b == OccText(max)
  IN b = "unbounded" \/ Len(a) < Len(b) \/ (Len(a) = Len(b) /\ AtMost(a, b))

(* Names the generated code takes from its surroundings.                    *)
Prelude == {"String", "Vec", "Option", "Some", "None", "Ok", "Err", "Default", "Validate", "Result"}

Key(it) == <<it.path, it.name>>             \* modules and types share one name space

Distinct(items) ==
  /\ NoDup([i \in 1..Len(items) |-> Key(items[i])])
  /\ \A i \in 1..Len(items) : ItemIdentsOk(items[i])
  /\ \A i \in 1..Len(items) : items[i].k = "mod" \/ items[i].name \notin Prelude

(* A module must not be named like those the types of values are in.        *)
ModsApart(doc, items) ==
  \A i \in 1..Len(items) : items[i].k = "mod" => items[i].name \notin {"xs", "o", "ext", "zz"}

(***************************************************************************)
(* What a type is made of: bases, and those of the anonymous types in it,   *)
(* and attribute groups.  A type made of itself has no finite meaning here. *)
(***************************************************************************)
RECURSIVE CtUses(_)
PartUses(p) == IF p.k = "el" /\ p.ty.k = "ct" THEN CtUses(p.ty.ct) ELSE {}
AttUses(as) == {<<"ag", as[i].q>> : i \in {j \in 1..Len(as) : as[j].k = "ag"}}
CtUses(ct) == (IF ct.base # "" THEN {<<"ct", ct.base>>} ELSE {}) \cup AttUses(ct.attrs)
              \cup UNION {PartUses(ct.parts[i]) : i \in 1..Len(ct.parts)}
IsMade(t)  == t.k = "ag" \/ IsComplexTop(t)
TopUses(t) == IF t.k = "ag" THEN AttUses(t.attrs) ELSE CtUses(CtOfTop(t))
Named(t)   == <<IF t.k = "ag" THEN "ag" ELSE "ct", t.name>>
Ours(doc, u) == u[1] = "ag" \/ (InTarget(doc, u[2]) /\ ~IsBuiltin(doc, u[2]))
LocalUses(doc, t) == {<<u[1], Local(u[2])>> : u \in {v \in TopUses(t) : Ours(doc, v)}}
RECURSIVE Closure(_, _, _)
Closure(doc, tops, S) ==
  LET more == S \cup UNION {LocalUses(doc, tops[i]) : i \in {j \in 1..Len(tops) : Named(tops[j]) \in S}}
  IN IF more = S THEN S ELSE Closure(doc, tops, more)
(* A base of another namespace (or a built-in one) named like a type of this *)
(* schema is taken for that type (known finding).                           *)
NoTwin(doc, tops) ==
  \A i \in 1..Len(tops) : \A u \in TopUses(tops[i]) :
    ~Ours(doc, u) => \A j \in 1..Len(tops) :
                       Named(tops[j]) = <<"ct", Local(u[2])>> => (i = j /\ CtOfTop(tops[i]).base = u[2])
(* With XML Schema as the default namespace a type named like a built-in     *)
(* type is taken for it (known finding).                                     *)
NoBuiltinNames(doc) == doc.xp = "" => \A i \in 1..Len(doc.tops) : doc.tops[i].name \notin DOMAIN Builtins
WellFounded(doc) ==
  LET tops == SelectSeq(doc.tops, LAMBDA t : IsMade(t)) IN
  /\ \A i \in 1..Len(tops) : Named(tops[i]) \notin Closure(doc, tops, LocalUses(doc, tops[i]))
  /\ NoTwin(doc, tops) /\ NoBuiltinNames(doc)

InDomain(doc, items) == Distinct(items) /\ ModsApart(doc, items)
Supported(doc) == WellFounded(doc) /\ InDomain(doc, Items(doc))

(***************************************************************************)
(* Views of a sequence of items (generated by the specification, or by the  *)
(* code), one per property                                                  *)
(***************************************************************************)
Structs(items) == SelectSeq(items, LAMBDA i : i.k = "struct")
Enums(items)   == SelectSeq(items, LAMBDA i : i.k = "enum")
Tuples(items)  == SelectSeq(items, LAMBDA i : i.k = "tuple")
Mods(items)    == SelectSeq(items, LAMBDA i : i.k = "mod")

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

RECURSIVE Shell(_)
Shell(t) == IF StartsWith(t, "Vec<") THEN "V" \o Shell(SubSeq(t, 5, Len(t)))
            ELSE IF StartsWith(t, "Option<") THEN "O" \o Shell(SubSeq(t, 8, Len(t)))
            ELSE ""
RECURSIVE Core(_)
Core(t) == IF StartsWith(t, "Vec<") THEN Core(SubSeq(t, 5, Len(t) - 1))
           ELSE IF StartsWith(t, "Option<") THEN Core(SubSeq(t, 8, Len(t) - 1))
           ELSE t

(* A bag of views: the view of an item with how often it occurs.             *)
(* (Two items with the same path and name would be a clash.)                 *)

(* How often each member may occur.                                         *)
CardView(items) ==
  {<<i.k, i.path, i.name, [n \in 1..Len(i.fields) |->
       <<i.fields[n].src, i.fields[n].xml, Shell(i.fields[n].ty)>>]>> : i \in Range(Structs(items))}
  \cup
  {<<i.k, i.path, i.name, [n \in 1..Len(i.cases) |-> <<i.cases[n].xml, Shell(i.cases[n].ty)>>]>>
     : i \in Range(Enums(items))}

(* Which members there are, in which order, under which XML names.          *)
MemberView(items) ==
  {<<i.k, i.path, i.name, i.yp, i.yns, [n \in 1..Len(i.fields) |->
       <<i.fields[n].src, i.fields[n].pre, i.fields[n].xml>>]>> : i \in Range(Structs(items))}
  \cup
  {<<i.k, i.path, i.name, i.yp, i.yns>> : i \in Range(Enums(items))}

(* The members of structs with their types, whatever their order.           *)
FieldSetView(items) ==
  {<<i.k, i.path, i.name, Len(i.fields),
     {<<i.fields[n].src, i.fields[n].pre, i.fields[n].xml, i.fields[n].id, i.fields[n].ty>> : n \in 1..Len(i.fields)}>>
     : i \in Range(Structs(items))}

(* What the values are.                                                     *)
TypeView(items) ==
  {<<i.k, i.path, i.name, {<<i.fields[n].src, i.fields[n].xml, Core(i.fields[n].ty)>> : n \in 1..Len(i.fields)}>>
     : i \in Range(Structs(items))}
  \cup
  {<<i.k, i.path, i.name, {<<i.cases[n].xml, Core(i.cases[n].ty)>> : n \in 1..Len(i.cases)}>>
     : i \in Range(Enums(items))}
  \cup {<<i.k, i.path, i.name, Core(i.ty)>> : i \in Range(Tuples(items))}

(* Every identifier of the generated code, with what it stands for.         *)
IdentView(items) ==
  {<<i.k, i.path, i.name, {<<i.fields[n].src, i.fields[n].xml, i.fields[n].id>> : n \in 1..Len(i.fields)}>>
     : i \in Range(Structs(items))}
  \cup
  {<<i.k, i.path, i.name, {<<i.cases[n].xml, i.cases[n].id>> : n \in 1..Len(i.cases)}>>
     : i \in Range(Enums(items))}
  \cup {<<i.k, i.path, i.name>> : i \in Range(Tuples(items)) \cup Range(Mods(items))}

(* Simple types: tuple structs, enumerations, unions.                       *)
SimpleView(items) ==
  {<<i.k, i.path, i.name, i.ty, i.derives, i.impls>> : i \in Range(Tuples(items))}
  \cup
  {<<i.k, i.path, i.name, [n \in 1..Len(i.cases) |-> <<i.cases[n].id, i.cases[n].xml, i.cases[n].ty>>],
     i.derives, i.impls>> : i \in Range(Enums(items))}

(* Choices: the enums of alternatives, and the members that hold them.      *)
ChoiceView(items) ==
  {<<i.k, i.path, i.name, i.cases, i.derives, i.impls>> : i \in {e \in Range(Enums(items)) : "YaSerialize" \in e.derives}}
  \cup
  {<<i.k, i.path, i.name, {<<i.fields[n].id, i.fields[n].ty>> : n \in {m \in 1..Len(i.fields) : i.fields[m].src = "ch"}}>>
     : i \in Range(Structs(items))}

(* Which definitions there are, and in which module.                        *)
ModView(items) ==
  {<<i.k, i.path, i.name, i.super>> : i \in Range(Mods(items))}
  \cup {<<i.k, i.path, i.name>> : i \in Range(Structs(items)) \cup Range(Enums(items)) \cup Range(Tuples(items))}

(* Everything.                                                              *)
FullView(items) == Range(items)

(***************************************************************************)
(* References: every path in a definition leads to a definition, to a type  *)
(* of the prelude, or to another namespace.                                 *)
(***************************************************************************)
Primitives == {"bool", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f64", "f32",
               "String", "Vec", "Option"}
Defined(items, path, name) ==
  \E n \in 1..Len(items) : items[n].k # "mod" /\ items[n].path = path /\ items[n].name = name
IsMod(items, path, name) ==
  \E n \in 1..Len(items) : items[n].k = "mod" /\ items[n].path = path /\ items[n].name = name
(* Every module uses super::*, so the definitions around it are in scope.   *)
Scopes(path) == {SubSeq(path, 1, n) : n \in 0..Len(path)}
Resolves(doc, items, u) ==
  IF Len(u.segs) = 1
  THEN u.segs[1] \in Primitives \/ \E s \in Scopes(u.path) : Defined(items, s, u.segs[1])
  ELSE \/ \E s \in Scopes(u.path) : /\ IsMod(items, s, u.segs[1])
                                    /\ Len(u.segs) = 2
                                    /\ Defined(items, Append(s, u.segs[1]), u.segs[2])
       \/ /\ Len(u.segs) = 2
          /\ \A s \in Scopes(u.path) : ~IsMod(items, s, u.segs[1])
Dangling(doc, items, uses) ==
  {<<"dangling", uses[n].path, uses[n].segs>> : n \in {m \in 1..Len(uses) : ~Resolves(doc, items, uses[m])}}

View(p, doc, items) ==
  CASE p = "card"   -> CardView(items)
    [] p = "member" -> MemberView(items)
    [] p = "fields" -> FieldSetView(items)
    [] p = "type"   -> TypeView(items)
    [] p = "ident"  -> IdentView(items)
    [] p = "simple" -> SimpleView(items)
    [] p = "choice" -> ChoiceView(items)
    [] p = "nest"   -> ModView(items)
    [] p = "full"   -> FullView(items)
    [] p = "none"   -> {}                       \* that there is a conversion
=============================================================================
