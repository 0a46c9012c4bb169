------------------------------ MODULE RtJudge ------------------------------
(* Recorded round trips: [doc, root, in, st, eq, debug, out].                *)
EXTENDS RoundTrip, Json, IOUtils
Docs == ndJsonDeserialize(IOEnv.DOCS)
Log == ndJsonDeserialize(IOEnv.OBS)
VARIABLE l
Init == l \in 1..Len(Log)
Next == UNCHANGED l

RECURSIVE Contains(_, _, _)
Contains(s, w, i) == i + Len(w) - 1 <= Len(s) /\ (SubSeq(s, i, i + Len(w) - 1) = w \/ Contains(s, w, i + 1))
RootOf(doc, t) == CASE t.k = "ct" -> [k |-> "ct", ct |-> t.ct, name |-> t.name]
                    [] t.k = "st" -> [k |-> "st", st |-> t.st]
                    [] OTHER -> TypeOf(doc, t.ty)
(* The root is called like its Rust type (a known finding), and has no        *)
(* namespace if it is simple.                                                *)
RootDiffer(doc, top, T, a, b) ==
  (IF b.n \in {a.n, TypeIdent(a.n)} THEN {} ELSE {<<"name of the root", b.n>>})
  \cup (IF b.ns = doc.tns \/ (T.k # "ct" /\ b.ns = "") THEN {} ELSE {<<"namespace of the root", b.ns>>})
  \cup Differ(doc, T, a, [b EXCEPT !.n = a.n])
VariantDiffer(doc, T, r) ==
  IF T.k = "st" /\ T.st.k = "union"
  THEN LET m == FirstMember(doc, T.st, r.in.t)
           id == UnionMembers(doc, T.st)[m].id \o "("
       IN IF StartsWith(r.debug, id) THEN {} ELSE {<<"variant", id>>}
  ELSE {}
Why(r) ==
  LET doc == Docs[r.doc]
      top == doc.tops[r.root]
      T == RootOf(doc, top)
  IN IF r.st # "ok" THEN {<<"status", r.st>>}
     ELSE (IF r.eq THEN {} ELSE {<<"the value read again is another one">>})
          \cup (IF Contains(r.debug, "__Unknown__", 1) THEN {<<"unknown variant">>} ELSE {})
          \cup VariantDiffer(doc, T, r)
          \cup RootDiffer(doc, top, T, r.in, r.out)
Tell == LET w == Why(Log[l]) IN PrintT("@@" \o ToJson([line |-> l, ok |-> w = {}, why |-> w]))
=============================================================================
