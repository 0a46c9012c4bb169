------------------------------ MODULE XsdCustom ----------------------------
(* Generators with custom parts.  A generator is put together by a builder:  *)
(* a sequence of calls, each of which sets one part (slot) to a custom one   *)
(* (tag).  The state of the builder, and what a generator so built makes of  *)
(* a document.                                                              *)
EXTENDS XsdNotes, Json

Slots == {"base", "struct", "field", "enum", "case", "tuple", "alias", "import"}
BaseTags == {"indent", "name", "mod", "modify", "comment", "type"}
Tags(s) == IF s = "base" THEN BaseTags ELSE {"a", "b"}

Default == [s \in Slots |-> ""]
With(b, call) == [b EXCEPT ![call.slot] = call.tag]        \* the last call for a part counts

RECURSIVE Built(_)
Built(calls) == IF calls = <<>> THEN Default
                ELSE With(Built(SubSeq(calls, 1, Len(calls) - 1)), calls[Len(calls)])

(* The mark a custom part leaves.                                           *)
Marks(b, s) == IF b[s] = "" THEN {} ELSE {"#[custom_" \o s \o "_" \o b[s] \o "]"}

ModOf(b, m) == IF b["base"] = "mod" THEN m \o "_m" ELSE m
Modified(b, t) == IF b["base"] = "modify" /\ t # "" THEN "Cell<" \o t \o ">" ELSE t

(* What the base makes of a type's name: here, a mark before its last part.  *)
RECURSIVE LastMark(_, _)
LastMark(t, n) == IF n = 0 \/ SubSeq(t, n, n) \in {":", "<"} THEN n ELSE LastMark(t, n - 1)
Typed(b, t) == IF b["base"] # "type" \/ t = "" THEN t
               ELSE LET n == LastMark(t, Len(t)) IN SubSeq(t, 1, n) \o "Tt" \o SubSeq(t, n + 1, Len(t))

(* A type that is in the module m of the struct.                            *)
RECURSIVE InMod(_, _, _)
InMod(b, t, m) == IF StartsWith(t, "Vec<") THEN "Vec<" \o InMod(b, SubSeq(t, 5, Len(t)), m)
                  ELSE IF StartsWith(t, "Option<") THEN "Option<" \o InMod(b, SubSeq(t, 8, Len(t)), m)
                  ELSE ModOf(b, m) \o SubSeq(t, Len(m) + 1, Len(t))

CustomItem(b, items, ii) ==
  LET i == IF ii.k = "mod" THEN ii ELSE [ii EXCEPT !.name = Typed(b, @)] IN
  LET path == [n \in 1..Len(i.path) |-> ModOf(b, i.path[n])]
      ModItems == {items[n] : n \in {m \in 1..Len(items) : items[m].k = "mod"}}
      (* the modules in which the types of this struct's members may be     *)
      Nested(f) == {m \in ModItems : m.path = i.path /\ StartsWith(Core(f.ty), m.name \o "::")
                                 /\ \E x \in Range(items) : x.k # "mod" /\ x.path = Append(i.path, m.name)
                                                            /\ Core(f.ty) = m.name \o "::" \o x.name}
      FieldTy(f) == IF Nested(f) = {} THEN f.ty ELSE InMod(b, f.ty, (CHOOSE m \in Nested(f) : TRUE).name)
  IN
  CASE i.k = "mod"    -> [i EXCEPT !.path = path, !.name = ModOf(b, @)]
    [] i.k = "struct" -> [x \in DOMAIN i \cup {"odd"} |->
         CASE x = "odd"  -> Marks(b, "struct")
           [] x = "path" -> path
           [] x = "fields" -> [n \in 1..Len(i.fields) |->
                LET f == i.fields[n] IN
                [y \in DOMAIN f \cup {"odd"} |->
                   CASE y = "odd" -> Marks(b, "field")
                     [] y = "id"  -> IF b["base"] = "name" THEN "z_" \o f.id ELSE f.id
                     [] y = "ty"  -> Modified(b, Typed(b, FieldTy(f)))
                     [] OTHER     -> f[y]]]
           [] OTHER -> i[x]]
    [] i.k = "enum" -> [x \in DOMAIN i \cup {"odd"} |->
         CASE x = "odd"  -> Marks(b, "enum")
           [] x = "path" -> path
           [] x = "cases" -> [n \in 1..Len(i.cases) |->
                LET c == i.cases[n] IN
                [y \in DOMAIN c \cup {"odd"} |->
                   CASE y = "odd" -> IF n = Len(i.cases) THEN {} ELSE Marks(b, "case")
                     [] y = "ty"  -> IF n = Len(i.cases) THEN Typed(b, c.ty) ELSE Modified(b, Typed(b, c.ty))
                     [] OTHER     -> c[y]]]
           [] OTHER -> i[x]]
    [] OTHER -> [x \in DOMAIN i \cup {"odd"} |->
         CASE x = "odd"  -> Marks(b, "tuple")
           [] x = "path" -> path
           [] x = "ty"   -> Modified(b, Typed(b, i.ty))
           [] OTHER -> i[x]]

CustomItems(b, doc) == LET items == Items(doc) IN {CustomItem(b, items, i) : i \in Range(items)}

(* Besides definitions: what custom aliases and imports are made into.      *)
AliasTops(doc) == {t \in Range(doc.tops) : t.k \in {"el", "at"} /\ t.ty.k = "q"}
Others(b, doc) ==
  (IF b["alias"] = "" THEN {}
   ELSE {"#[custom_alias_" \o b["alias"] \o "]pubtype" \o Typed(b, TypeIdent(t.name)) \o "=" \o Typed(b, TypePath(doc, t.ty.q)) \o ";" : t \in AliasTops(doc)})
  \cup
  (IF b["import"] = "" THEN {}
   ELSE {"#[custom_import_" \o b["import"] \o "]const_:(&str,&str)=(\""
         \o (IF t.k = "import" THEN t.ns ELSE "") \o "\",\"" \o t.loc \o "\");" : t \in {u \in Range(doc.tops) : u.k \in {"import", "include"}}})

(* Custom comments are in front of every definition, member and variant.    *)
CommentsMissing(b, doc, notes) ==
  IF b["base"] # "comment" THEN {o \in Range(notes) : "@custom" \in Range(o.words)}
  ELSE {n \in Range(Notes(doc)) : n.mem # "__Unknown__" /\ ~ \E o \in Range(notes) :
          o.path = n.path /\ o.name = n.name /\ o.mem = n.mem /\ o.words # <<>> /\ o.words[Len(o.words)] = "@custom"}
=============================================================================
