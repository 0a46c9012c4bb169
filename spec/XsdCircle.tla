----------------------------- MODULE XsdCircle -----------------------------
(* Types that extend each other, the anonymous types in them, and           *)
(* themselves, and groups that contain each other: every such document over *)
(* three types and two groups, in every order.  Most have no finite meaning *)
(* (XsdDomain!WellFounded), but converting them comes to an end.            *)
EXTENDS XsdFamilies, Json
VARIABLES doc, seen
P == Pfx[1]
Names == {"A", "B", "C"}
Ext(base, parts, attrs) == IF base = "" THEN Ct("seq", parts, attrs)
                           ELSE CtX("ext", IF parts = <<>> THEN "none" ELSE "seq", Tq(P, base), parts, attrs)
Inner(n, base) == IF base = "" THEN <<>> ELSE <<El("in" \o n, TyCt(Ext(base, <<El1("x" \o n, Bi(P, "int"))>>, <<>>)), "0", "")>>
Types == {f \in [Names -> (Names \cup {""}) \X (Names \cup {""})] : TRUE}
TypeDocs == {<<TopCt("A", Ext(f["A"][1], Inner("a", f["A"][2]), <<>>)), TopCt("B", Ext(f["B"][1], Inner("b", f["B"][2]), <<>>)),
               TopCt("C", Ext(f["C"][1], Inner("c", f["C"][2]), <<At("i", Bi(P, "int"), "")>>))>> : f \in Types}
Refs == {<<>>, <<"G">>, <<"H">>, <<"G", "H">>, <<"H", "H">>}
Ags(r) == [i \in 1..Len(r) |-> Ag(Tq(P, r[i]))]
GroupDocs == {<<TopAg("G", <<At("g", Bi(P, "int"), "")>> \o Ags(g)), TopAg("H", Ags(h) \o <<At("h", Bi(P, "int"), "")>>),
                TopCt("T", Ct("seq", <<El1("e", TyCt(Ct("empty", <<>>, Ags(t))))>>, Ags(u)))>>
              : g, h, t, u \in Refs}
Swapped(t) == <<t[3], t[1], t[2]>>
Init == doc \in {Doc(P, t) : t \in TypeDocs \cup GroupDocs \cup {Swapped(x) : x \in GroupDocs}} /\ seen = FALSE
Next == ~seen /\ seen' = TRUE /\ UNCHANGED doc
Emit == seen => PrintT("@@" \o ToJson(doc))
=============================================================================
