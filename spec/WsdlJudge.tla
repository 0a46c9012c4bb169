----------------------------- MODULE WsdlJudge -----------------------------
(* Judges recorded conversions of WSDL documents: [w, obs].                  *)
EXTENDS Wsdl, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.OBS)
VARIABLES l, judged
Init == l \in 1..Len(Log) /\ judged = FALSE

NormItem(i) == IF i.k = "mod" THEN i ELSE [i EXCEPT !.derives = Range(@), !.impls = Range(@)]
(* How often x occurs in a sequence.                                        *)
Times(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Range(s) : Times(s, x) = Times(t, x)
(* One function of the generated code.                                      *)
Shape(f) == /\ f["async"] /\ f["pub"] /\ f.path = <<>>
            /\ f.generics = <<"T:transport::Transport">>
Seen(f) == [name |-> f.name, args |-> [i \in 1..Len(f.args) |-> f.args[i].ty], ret |-> f.ret]

(* The words of the documentation, but for lines of a single character.      *)
Blank(c) == c \in {" ", "\n", "\t", "\r"}
RECURSIVE Split(_, _, _, _, _)      \* from i on: the words so far, those of this line, and the word begun
Split(s, i, words, here, word) ==
  LET line == IF word = "" THEN here ELSE Append(here, word) IN
  IF i > Len(s) THEN words \o (IF Len(line) = 1 /\ Len(line[1]) <= 1 THEN <<>> ELSE line)
  ELSE LET c == SubSeq(s, i, i) IN
       IF c = "\n" THEN Split(s, i + 1, words \o (IF Len(line) = 1 /\ Len(line[1]) <= 1 THEN <<>> ELSE line), <<>>, "")
       ELSE IF Blank(c) THEN Split(s, i + 1, words, line, "")
       ELSE Split(s, i + 1, words, here, word \o c)
DocWords(op) == Split(op.doc, 1, <<>>, <<>>, "")
(* Every function has what is said of its operation in front of it.          *)
NoteOf(notes, n) == LET s == SelectSeq(notes, LAMBDA o : o.name = n) IN IF s = <<>> THEN <<"no function">> ELSE s[1].words
Undocumented(line) == LET ops == AllOps(line.w) IN
  {ops[o].name : o \in {i \in 1..Len(ops) : NoteOf(line.obs.notes, FieldIdent(ops[i].name)) # DocWords(ops[i])}}

Verdict(line) ==
  LET bad(why, a, b) == [line |-> l, ok |-> FALSE, why |-> why, missing |-> a, extra |-> b]
      fs == line.obs.fns
      want == Functions(line.w)
      got == [i \in 1..Len(fs) |-> Seen(fs[i])]
      items == WItems(line.w)
      have == [i \in 1..Len(line.obs.items) |-> NormItem(line.obs.items[i])]
  IN IF line.obs.st # "ok" THEN bad(line.obs.st, {}, {})
     ELSE IF ~SameBag(want, got) THEN bad("functions", Range(want) \ Range(got), Range(got) \ Range(want))
     ELSE IF ~(\A i \in 1..Len(fs) : Shape(fs[i])) THEN bad("shape", {}, {})
     ELSE IF Undocumented(line) # {} THEN bad("documentation", Undocumented(line), {})
     ELSE IF ~SameBag(items, have) THEN bad("schemas", Range(items) \ Range(have), Range(have) \ Range(items))
     ELSE [line |-> l, ok |-> TRUE]
Judge == /\ ~judged /\ judged' = TRUE /\ UNCHANGED l
         /\ PrintT("@@" \o ToJson(Verdict(Log[l])))
Next == Judge
=============================================================================
