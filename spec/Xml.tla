-------------------------------- MODULE Xml --------------------------------
(* A reader of XML 1.0 texts with namespaces (without DTDs), as a state      *)
(* machine: one step per tag, text, comment or instruction.                  *)
(* The state is [p, stack, phase, v]: the position in the text, the open     *)
(* elements (name and namespaces in scope), whether the root element is      *)
(* still to come (0), open (1) or closed (2), and the verdict:               *)
(* "go" (reading), "wf", "bad", or "unsure" (what the reader leaves open:    *)
(* DTDs, names that are not QNames, odd uses of xml and xmlns,              *)
(* declarations other than the usual ones).              *)
EXTENDS Naming

Space == {" ", "\t", "\n", "\r"}
NameStart == Lowers \cup Uppers \cup {"_"}
Punct == {"!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", ":", ";", "<",
          "=", ">", "?", "@", "[", "\\", "]", "^", "_", "`", "{", "|", "}", "~"}
Ascii == Alnums \cup Punct \cup Space
Other(c) == c \notin Ascii                 \* no verdict on where these may be in names
NameChar(c) == c \in Alnums \cup {"_", "-", "."} \/ Other(c)
At(s, p, t) == SubSeq(s, p, p + Len(t) - 1) = t
Sub(s, i, j) == SubSeq(s, i, IF j > Len(s) THEN Len(s) ELSE j)
LooksAt(s, p, t) == p + Len(t) - 1 <= Len(s) /\ At(s, p, t)

RECURSIVE Skip(_, _)                       \* the first position from i on that is no space
Skip(s, i) == IF i <= Len(s) /\ Ch(s, i) \in Space THEN Skip(s, i + 1) ELSE i
RECURSIVE NcEnd(_, _)
NcEnd(s, i) == IF i <= Len(s) /\ NameChar(Ch(s, i)) THEN NcEnd(s, i + 1) ELSE i
RECURSIVE NameEnd(_, _)                    \* any XML name, colons included
NameEnd(s, i) == IF i <= Len(s) /\ (NameChar(Ch(s, i)) \/ Ch(s, i) = ":") THEN NameEnd(s, i + 1) ELSE i
RECURSIVE Find(_, _, _)                    \* where t is next, 0 if nowhere
Find(s, i, t) == IF i + Len(t) - 1 > Len(s) THEN 0 ELSE IF At(s, i, t) THEN i ELSE Find(s, i + 1, t)
RECURSIVE FindIn(_, _, _, _)               \* the same, only before position e
FindIn(s, i, e, t) == IF i + Len(t) > e THEN 0 ELSE IF At(s, i, t) THEN i ELSE FindIn(s, i + 1, e, t)

(* A name from i to e - 1: "bad" when it is no name at all.                 *)
Name(s, i, e) ==
  IF e = i \/ Ch(s, i) \in Digits \cup {"-", "."} THEN "bad"
  ELSE LET n == Sub(s, i, e - 1)
           c == Colon(n) IN
       IF c = 0 THEN "ok"
       ELSE IF c = 1 \/ c = Len(n) \/ Colon(Local(n)) > 0 THEN "unsure"
       ELSE IF Ch(n, c + 1) \in Digits \cup {"-", "."} THEN "unsure"
       ELSE "ok"

(* References in character data or in an attribute value, from i to e - 1.  *)
HexDigits == Digits \cup {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}
RefName(r) ==
  IF r \in {"lt", "gt", "amp", "apos", "quot"} THEN "ok"
  ELSE IF Len(r) >= 2 /\ Ch(r, 1) = "#"
  THEN LET hex == Ch(r, 2) = "x"
           from == IF hex THEN 3 ELSE 2
           digits == IF hex THEN HexDigits ELSE Digits
       IN IF from > Len(r) \/ \E k \in from..Len(r) : Ch(r, k) \notin digits THEN "bad"
          ELSE IF r \in {"#9", "#10", "#13", "#xA", "#xD", "#x9", "#65", "#x41"} THEN "ok"
          ELSE "unsure"
  ELSE "bad"                               \* undeclared, or no reference
RECURSIVE Refs(_, _, _)
Refs(s, i, e) ==
  LET a == FindIn(s, i, e, "&") IN
  IF a = 0 THEN "ok"
  ELSE LET z == FindIn(s, a, e, ";") IN
       IF z = 0 THEN "bad"
       ELSE LET r == RefName(Sub(s, a + 1, z - 1)) IN
            IF r # "ok" THEN r ELSE Refs(s, z + 1, e)

(* Attributes, from position i on (just after the name or a value).         *)
(* Result: [v, p, attrs], p at the end of the tag.                          *)
RECURSIVE Attributes(_, _, _)
Attributes(s, i, attrs) ==
  LET j == Skip(s, i)
      no(v) == [v |-> v, p |-> j, attrs |-> attrs]
  IN IF j > Len(s) THEN no("bad")
     ELSE IF Ch(s, j) = ">" \/ LooksAt(s, j, "/>") THEN no("ok")
     ELSE IF j = i THEN no("bad")          \* a space is needed before an attribute
     ELSE LET e == NameEnd(s, j)
              nv == Name(s, j, e)
              q == Skip(s, e)
          IN IF nv # "ok" THEN no(nv)
             ELSE IF q > Len(s) THEN no("bad")
             ELSE IF Ch(s, q) # "=" THEN no("bad")
             ELSE LET o == Skip(s, q + 1) IN
                  IF o > Len(s) THEN no("bad")
                  ELSE IF Ch(s, o) \notin {"\"", "'"} THEN no("bad")
                  ELSE LET z == Find(s, o + 1, Ch(s, o)) IN
                       IF z = 0 THEN no("bad")
                       ELSE LET lt == FindIn(s, o + 1, z, "<")
                                rv == Refs(s, o + 1, z)
                            IN IF lt # 0 THEN no("bad")
                               ELSE IF rv # "ok" THEN no(rv)
                               ELSE Attributes(s, z + 1, Append(attrs, [n |-> Sub(s, j, e - 1), x |-> Sub(s, o + 1, z - 1)]))

(* Namespaces: a scope is a sequence of <<prefix, uri>>, the nearest first.  *)
RECURSIVE Uri(_, _)
Uri(scope, p) == IF scope = <<>> THEN "?unbound"
                 ELSE IF Head(scope)[1] = p THEN Head(scope)[2] ELSE Uri(Tail(scope), p)
IsDecl(a) == a.n = "xmlns" \/ Prefix(a.n) = "xmlns"
Scope(scope, attrs) ==
  LET ds == SelectSeq(attrs, IsDecl) IN
  [i \in 1..Len(ds) |-> <<IF ds[i].n = "xmlns" THEN "" ELSE Local(ds[i].n), ds[i].x>>] \o scope
Tag(scope, name, attrs) ==                 \* verdict on a tag with these attributes
  LET sc == Scope(scope, attrs)
      plain == SelectSeq(attrs, LAMBDA a : ~IsDecl(a))
      exp(a) == <<IF HasPrefix(a.n) THEN Uri(sc, Prefix(a.n)) ELSE "", Local(a.n)>>
      odd == \/ Prefix(name) = "xmlns"
             \/ \E i \in 1..Len(attrs) : \/ attrs[i].n \in {"xmlns:xml", "xmlns:xmlns"}
                                         \/ Prefix(attrs[i].n) = "xmlns" /\ attrs[i].x = ""
                                         \/ HasPrefix(attrs[i].n) /\ Local(attrs[i].n) = "xmlns"
                                         \/ IsDecl(attrs[i]) /\ Find(attrs[i].x, 1, "&") > 0
      twice(n) == \E i, j \in 1..Len(attrs) : i < j /\ attrs[i].n = attrs[j].n /\ attrs[i].n = n
  IN IF twice("xmlns") THEN "unsure"       \* known finding: accepted
     ELSE IF \E i \in 1..Len(attrs) : twice(attrs[i].n) THEN "bad"
     ELSE IF odd THEN "unsure"
     ELSE IF HasPrefix(name) /\ Uri(sc, Prefix(name)) = "?unbound" THEN "bad"
     ELSE IF \E i \in 1..Len(plain) : exp(plain[i])[1] = "?unbound" THEN "bad"
     ELSE IF \E i, j \in 1..Len(plain) : i < j /\ exp(plain[i]) = exp(plain[j]) THEN "bad"
     ELSE "ok"

(* The XML declaration, at the very start; forms other than these are left   *)
(* open (the parser below is lax about it, a known finding).                *)
Declaration(s, e) ==                       \* e: where "?>" is
  LET a == Attributes(SubSeq(s, 1, e - 1) \o "/>", 6, <<>>) IN
  IF /\ a.v = "ok" /\ a.p = e
     /\ a.attrs \in {<<[n |-> "version", x |-> "1.0"]>>,
                      <<[n |-> "version", x |-> "1.0"], [n |-> "encoding", x |-> "UTF-8"]>>}
  THEN "ok" ELSE "unsure"

Start == [p |-> 1, stack |-> <<>>, phase |-> 0, v |-> "go"]
TopScope == <<<<"xml", "http://www.w3.org/XML/1998/namespace">>, <<"", "">>>>

Read(s, st) ==
  LET p == st.p
      fail(v) == [st EXCEPT !.v = v]
      go(q) == [st EXCEPT !.p = q]
      inside == st.stack # <<>>
      scope == IF inside THEN st.stack[Len(st.stack)].scope ELSE TopScope
  IN
  IF p > Len(s) THEN fail(IF st.phase = 2 THEN "wf" ELSE "bad")
  ELSE IF Ch(s, p) # "<"
  THEN LET lt == Find(s, p, "<")
           e == IF lt = 0 THEN Len(s) + 1 ELSE lt
           cd == FindIn(s, p, e, "]]>")
           rv == Refs(s, p, e)
       IN IF ~inside THEN (IF Skip(s, p) = e THEN go(e) ELSE fail("bad"))
          ELSE IF cd # 0 THEN fail("bad")
          ELSE IF rv # "ok" THEN fail(rv) ELSE go(e)
  ELSE IF LooksAt(s, p, "<!--")
  THEN LET z == Find(s, p + 4, "--") IN
       IF z = 0 \/ ~LooksAt(s, z, "-->") THEN fail("bad") ELSE go(z + 3)
  ELSE IF LooksAt(s, p, "<![CDATA[")
  THEN LET z == Find(s, p, "]]>") IN IF ~inside \/ z = 0 THEN fail("bad") ELSE go(z + 3)
  ELSE IF LooksAt(s, p, "<!DOCTYPE") THEN fail("unsure")
  ELSE IF LooksAt(s, p, "<!") THEN fail("bad")
  ELSE IF LooksAt(s, p, "<?")
  THEN LET e == NameEnd(s, p + 2)
           nv == Name(s, p + 2, e)
           z == Find(s, e, "?>")
           target == Sub(s, p + 2, e - 1)
       IN IF nv # "ok" THEN fail(nv)
          ELSE IF z = 0 THEN fail("bad")
          ELSE IF target = "xml"
          THEN LET d == IF p # 1 THEN "bad"
                        ELSE IF Ch(s, e) \notin Space THEN "unsure" ELSE Declaration(s, z) IN
               IF d = "ok" THEN go(z + 2) ELSE fail(d)
          ELSE IF Len(target) = 3 /\ ToLower(Ch(target, 1)) = "x" /\ ToLower(Ch(target, 2)) = "m" /\ ToLower(Ch(target, 3)) = "l" THEN fail("unsure")
          ELSE IF z # e /\ Ch(s, e) \notin Space THEN fail("unsure")   \* known finding: accepted
          ELSE go(z + 2)
  ELSE IF LooksAt(s, p, "</")
  THEN LET e == NameEnd(s, p + 2)
           q == Skip(s, e)
       IN IF ~inside \/ q > Len(s) THEN fail("bad")
          ELSE IF Ch(s, q) = ">" /\ Sub(s, p + 2, e - 1) = ":" \o st.stack[Len(st.stack)].name THEN fail("unsure")   \* known finding: accepted
          ELSE IF Ch(s, q) # ">" \/ Sub(s, p + 2, e - 1) # st.stack[Len(st.stack)].name THEN fail("bad")
          ELSE [p |-> q + 1, stack |-> SubSeq(st.stack, 1, Len(st.stack) - 1),
                phase |-> IF Len(st.stack) = 1 THEN 2 ELSE 1, v |-> "go"]
  ELSE LET e == NameEnd(s, p + 1)
           nv == Name(s, p + 1, e)
           name == Sub(s, p + 1, e - 1)
           a == Attributes(s, e, <<>>)
       IN IF nv # "ok" THEN fail(nv)
          ELSE IF st.phase = 2 THEN fail("bad")      \* a second root
          ELSE IF a.v # "ok" THEN fail(a.v)
          ELSE LET t == Tag(scope, name, a.attrs) IN
               IF t # "ok" THEN fail(t)
               ELSE IF Ch(s, a.p) = "/"
               THEN [p |-> a.p + 2, stack |-> st.stack, phase |-> IF inside THEN 1 ELSE 2, v |-> "go"]
               ELSE [p |-> a.p + 1, phase |-> 1, v |-> "go",
                     stack |-> Append(st.stack, [name |-> name, scope |-> Scope(scope, a.attrs)])]
=============================================================================
