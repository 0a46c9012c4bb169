----------------------------- MODULE XsdAnnotate ---------------------------
(* Documents with documentation: documents of the authors (in the file       *)
(* CORPUS) in which components are documented.  The first word of every      *)
(* documentation says which component it is of.                              *)
EXTENDS XsdNotes, Json, IOUtils

CONSTANT Versions           \* how many ways to document each document
Plain == ndJsonDeserialize(IOEnv.CORPUS)

RECURSIVE Rep(_, _)
Rep(w, n) == IF n = 0 THEN "" ELSE w \o Rep(w, n - 1)
Words == {"the", "a", "of", "value", "pub", "struct", "{", "}", "//", "*/", "/*", "#[x]", "&amp;", "<b>", "</b>", "\"q\"", "'", "\\",
          "é", "日本語", "❤", ";", "--", "]]>", "x.", "(1)", "http://www.onvif.org/ver10/schema", "///", "//!", "0", "*", "-", "#", "@param", "1.", "**", "=", "...", "TODO:", "tns:x", "/**",
          Rep("x", 40), Rep("y", 73), Rep("z", 74), Rep("w", 75), Rep("ü", 38), Rep("v", 120)}

(* how = 1: everything is documented, tersely; 2: everything, by its own     *)
(* name; 3: everything, in the same words (so that no copy may be dropped   *)
(* for looking like its neighbour); otherwise as it comes.                  *)
Text(how, at, name) ==
  IF how = 1 THEN <<"@" \o at>>
  ELSE IF how = 2 THEN (IF Len(name) > 1 THEN <<name>> ELSE <<>>)
  ELSE IF how = 3 THEN <<"same">>
  ELSE IF RandomElement(1..3) = 1 THEN <<>>
  ELSE LET n == RandomElement({0, 1, 2, 5, 10, 30}) IN
       [i \in 1..n + 1 |-> IF i = 1 THEN "@" \o at ELSE RandomElement(Words \cup {name})]

With(r, words) == [x \in DOMAIN r \cup {"doc"} |-> IF x = "doc" THEN words ELSE r[x]]
Sub(at, n) == at \o "." \o ToString(n)
Each(f(_, _), s, at) == [i \in 1..Len(s) |-> f(s[i], Sub(at, i))]

RECURSIVE OnSt(_, _, _)
RECURSIVE OnCt(_, _, _)
OnTy(how, ty, at) ==
  CASE ty.k = "ct" -> [ty EXCEPT !.ct = OnCt(how, @, at \o "t")]
    [] ty.k = "st" -> [ty EXCEPT !.st = OnSt(how, @, at \o "t")]
    [] OTHER -> ty
OnFacet(how, f, at) == IF f.f = "enumeration" THEN With(f, Text(how, at, f.v)) ELSE f
OnSt(how, st, at) ==
  LET s == CASE st.k = "rst"  -> [st EXCEPT !.facets = Each(LAMBDA f, a : OnFacet(how, f, a), @, at)]
             [] st.k = "list" -> [st EXCEPT !.ty = OnTy(how, @, at)]
             [] OTHER         -> [st EXCEPT !.sts = Each(LAMBDA x, a : OnSt(how, x, a), @, at)]
  IN With(s, Text(how, at, "simple"))
OnAt(how, a, at) == IF a.k = "at" THEN With([a EXCEPT !.ty = OnTy(how, @, at)], Text(how, at, a.name))
                    ELSE IF a.k = "ref" THEN With(a, Text(how, at, Local(a.q))) ELSE a
RECURSIVE OnPart(_, _, _)
OnPart(how, p, at) ==
  CASE p.k = "el"  -> With([p EXCEPT !.ty = OnTy(how, @, at)], Text(how, at, p.name))
    [] p.k = "ref" -> With(p, Text(how, at, p.q))
    [] p.k = "choice" -> [p EXCEPT !.parts = Each(LAMBDA q, a : OnPart(how, q, a), @, at)]
    [] OTHER -> p
OnCt(how, ct, at) ==
  LET c == [ct EXCEPT !.parts = Each(LAMBDA p, a : OnPart(how, p, a), @, at \o "p"),
                      !.attrs = Each(LAMBDA a, b : OnAt(how, a, b), @, at \o "a")]
      d == With(c, Text(how, at, "type"))
  IN IF ct.m \in {"ext", "rst", "sext"}
     THEN [x \in DOMAIN d \cup {"xdoc"} |-> IF x = "xdoc" THEN Text(how, at \o "x", Local(ct.base)) ELSE d[x]]
     ELSE d
OnTop(how, t, at) ==
  CASE t.k = "ct" -> [t EXCEPT !.ct = OnCt(how, @, at)]
    [] t.k = "st" -> [t EXCEPT !.st = OnSt(how, @, at)]
    [] t.k \in {"el", "at"} -> With([t EXCEPT !.ty = OnTy(how, @, at)], Text(how, at, t.name))
    [] t.k = "ag" -> [t EXCEPT !.attrs = Each(LAMBDA a, b : OnAt(how, a, b), @, at \o "a")]
    [] OTHER -> t
Annotated(how, d) == [d EXCEPT !.tops = Each(LAMBDA t, a : OnTop(how, t, a), @, "d")]

VARIABLES l, how, doc
Init == l \in 1..Len(Plain) /\ how \in 1..Versions /\ doc = <<>>
Write == /\ doc = <<>>
         /\ doc' = <<Annotated(how, Plain[l])>>
         /\ UNCHANGED <<l, how>>
Next == Write
(* Documentation never changes what is defined, and belongs to definitions.  *)
Sound == doc # <<>> => /\ Items(doc[1]) = Items(Plain[l])
                       /\ NotesFit(doc[1])
Emit == doc # <<>> => PrintT("@@" \o ToJson(doc[1]))
=============================================================================
