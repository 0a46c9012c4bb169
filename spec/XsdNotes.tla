------------------------------ MODULE XsdNotes -----------------------------
(* What is documented: components may have a field `doc`, the words of their *)
(* documentation, and types with derived content a field `xdoc`, those of    *)
(* the extension.  Notes(doc) says which words belong in the comment in      *)
(* front of every definition (mem = ""), member and variant.                 *)
EXTENDS XsdDomain

Note(path, name, mem, words) == [path |-> path, name |-> name, mem |-> mem, doc |-> words]
XDocOf(ct) == IF "xdoc" \in DOMAIN ct THEN ct.xdoc ELSE <<>>

UnknownNote(path, name) == Note(path, name, "__Unknown__", <<>>)

ChoiceNotes(path, name, parts) ==
  LET els == SelectSeq(parts, LAMBDA p : p.k \in {"el", "ref"})
      id  == TypeIdent(name)
  IN <<Note(path, id, "", <<>>)>>
     \o [i \in 1..Len(els) |-> Note(path, id, TypeIdent(IF els[i].k = "ref" THEN els[i].q ELSE els[i].name), DocOf(els[i]))]
     \o <<UnknownNote(path, id)>>

EnumNotes(path, name, st, words) ==
  LET es == SelectSeq(st.facets, LAMBDA f : f.f = "enumeration")
      id == TypeIdent(name)
  IN <<Note(path, id, "", words)>>
     \o [i \in 1..Len(es) |-> Note(path, id, TypeIdent(es[i].v), DocOf(es[i]))]
     \o <<UnknownNote(path, id)>>

(* The enumeration that may be behind (lists of) lists: the only anonymous   *)
(* item type that is defined.                                               *)
RECURSIVE ItemNotes(_, _, _)
ItemNotes(path, owner, ty) ==
  IF ty.k = "q" THEN <<>>
  ELSE IF ty.st.k = "list" THEN ItemNotes(path, owner, ty.st.ty)
  ELSE IF IsEnumeration(ty.st) THEN EnumNotes(path, owner \o "Enum", ty.st, DocOf(ty.st))
  ELSE <<>>

(* outer: the documentation of the top-level component around the type.     *)
RECURSIVE StNotes(_, _, _, _, _)
StNotes(path, owner, name, st, outer) ==
  LET words == outer \o DocOf(st) IN
  CASE st.k = "rst" ->
         IF IsEnumeration(st) THEN EnumNotes(path, name, st, words)
         ELSE <<Note(path, TypeIdent(name), "", words)>>
    [] st.k = "list" -> <<Note(path, TypeIdent(name), "", words)>> \o ItemNotes(path, owner, st.ty)
    [] OTHER ->
         LET id == TypeIdent(name) IN
         <<Note(path, id, "", words)>>
         \o [i \in 1..Len(st.qs) |-> Note(path, id, TypeIdent(st.qs[i]), <<>>)]
         \o [i \in 1..Len(st.sts) |-> Note(path, id, "EnumCase" \o ToString(i - 1), <<>>)]
         \o <<UnknownNote(path, id)>>
         \o Concat([i \in 1..Len(st.sts) |->
              StNotes(path, owner, "EnumCaseType_" \o ToString(i - 1), st.sts[i], <<>>)])

RECURSIVE StructNotes(_, _, _, _, _)
RECURSIVE CtNotes(_, _, _, _, _, _)
StructNotes(doc, path, sname, members, words) ==
  LET kept  == SelectSeq(members, LAMBDA m : m.wrap # "omit")
      inner == Append(path, ModIdent(sname))
      NestedOf(m) ==
        IF m.src = "ch"
        THEN IF m.top THEN <<>> ELSE ChoiceNotes(inner, m.name, m.parts)
        ELSE IF m.src = "at" THEN <<>>
        ELSE IF m.ty.k = "ct" THEN CtNotes(doc, inner, m.name, m.name \o "Type", m.ty.ct, <<>>)
        ELSE IF m.ty.k = "st" THEN StNotes(inner, m.name, m.name \o "Type", m.ty.st, <<>>)
        ELSE <<>>
  IN <<Note(path, TypeIdent(sname), "", words)>>
     \o [i \in 1..Len(kept) |-> Note(path, TypeIdent(sname), FieldIdent(kept[i].name), kept[i].doc)]
     \o Concat(Map(NestedOf, members))

CtNotes(doc, path, owner, sname, ct, outer) ==
  (IF ct.m = "choice" /\ ct.parts # <<>> THEN ChoiceNotes(path, owner \o "Choice", ct.parts) ELSE <<>>)
  \o StructNotes(doc, path, sname, Members(doc, owner, ct),
                 outer \o DocOf(ct) \o (IF ct.m \in {"ext", "rst", "sext"} THEN XDocOf(ct) ELSE <<>>))

TopNotes(doc, t) ==
  CASE t.k = "ct" -> CtNotes(doc, <<>>, t.name, t.name, t.ct, <<>>)
    [] t.k = "st" -> StNotes(<<>>, t.name, t.name, t.st, <<>>)
    [] t.k \in {"el", "at"} ->
         CASE t.ty.k = "ct" -> CtNotes(doc, <<>>, t.name, t.name, t.ty.ct, DocOf(t))
           [] t.ty.k = "st" -> StNotes(<<>>, t.name, t.name, t.ty.st, DocOf(t))
           [] t.ty.k = "q"  -> <<>>
           [] OTHER         -> StructNotes(doc, <<>>, t.name, <<>>, DocOf(t))
    [] OTHER -> <<>>

Notes(doc) == Concat([i \in 1..Len(doc.tops) |-> TopNotes(doc, doc.tops[i])])

(* Elements and attributes of a named type have no definition; what is said  *)
(* about them is somewhere among the comments.                              *)
AliasDocs(doc) == {DocOf(t) : t \in {u \in Range(doc.tops) : u.k \in {"el", "at"} /\ u.ty.k = "q"}}

(* Where comments may belong: exactly the definitions, members and variants. *)
Places(items) ==
  {<<i.path, i.name, "">> : i \in {j \in Range(items) : j.k # "mod"}}
  \cup UNION {{<<i.path, i.name, i.fields[n].id>> : n \in 1..Len(i.fields)} : i \in Range(Structs(items))}
  \cup UNION {{<<i.path, i.name, i.cases[n].id>> : n \in 1..Len(i.cases)} : i \in Range(Enums(items))}
NotesFit(doc) == Places(Items(doc)) = {<<n.path, n.name, n.mem>> : n \in Range(Notes(doc))}
=============================================================================
