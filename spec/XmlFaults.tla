----------------------------- MODULE XmlFaults -----------------------------
(* Faults in a text: it is cut off, loses or gains a piece, or has one       *)
(* doubled or exchanged.  All single faults of the given texts.             *)
EXTENDS Naming, Json, IOUtils, TLC
Texts == ndJsonDeserialize(IOEnv.TEXTS)
CONSTANTS Insertions, Widths
VARIABLES t, n, pc
Text == Texts[t].text
Cut(s, i) == SubSeq(s, 1, i)
From(s, i) == SubSeq(s, i, Len(s))
Without(s, i, w) == Cut(s, i - 1) \o From(s, i + w)
Init == /\ t \in 1..Len(Texts) /\ pc = "whole" /\ n = 0
Emit(kind, s) == PrintT("@@" \o ToJson([t |-> t, kind |-> kind, text |-> s]))
Fault ==
  /\ pc = "whole"
  /\ n' \in 1..Len(Text)
  /\ pc' = "done" /\ UNCHANGED t
  /\ Emit("cut", Cut(Text, n' - 1))
  /\ \A w \in Widths : n' + w - 1 <= Len(Text) =>
       /\ Emit("without", Without(Text, n', w))
       /\ Emit("double", Cut(Text, n' + w - 1) \o From(Text, n'))
  /\ \A x \in Insertions : /\ Emit("insert", Cut(Text, n' - 1) \o x \o From(Text, n'))
                           /\ Emit("replace", Cut(Text, n' - 1) \o x \o From(Text, n' + 1))
  /\ (n' < Len(Text) => Emit("swap", Cut(Text, n' - 1) \o Ch(Text, n' + 1) \o Ch(Text, n') \o From(Text, n' + 2)))
Next == Fault
I1 == {"<", ">", "&", "\"", "'", " ", "/", "a", "=", "]]>", "--", "x:"}
W1 == {1, 2, 7}
I2 == I1 \cup {"?", "!", "<a>", "</a>", "<!--", "-->", "<?", "?>", "&amp;", "&x;", "&#65;", "&#x;", ":", "0", "-", "<xs:a/>", " name='a'", "\n", ";", "#", "[", "<![CDATA[", "]]", "."}
W2 == {1, 2, 3, 5, 8, 13, 40}
=============================================================================
