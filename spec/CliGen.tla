------------------------------- MODULE CliGen -------------------------------
(* Users at work on a tree: they write, delete, make directories and run.    *)
EXTENDS Cli, Json, IOUtils, Randomization
CONSTANTS InPaths, OutPaths, OutDirs, InDirs, Contents, Steps, Random, Start
VARIABLES tool, b, hist
vars == <<tool, b, hist>>
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
(* Among what may stand in an output's place: what is as long as some code    *)
(* (3, 4), what begins with it or is its beginning (5 to 7).                 *)
Junk == {<<"junk", i>> : i \in IF Random THEN 1..7 ELSE {1, 3}}
Puts == [a : {"put"}, p : InPaths, c : Contents]
Runs == [a : {"run"}, i : InPaths \cup {<<"nowhere">>}, o : OutPaths \cup {StdOut}]
DirRuns == [a : {"run"}, i : InDirs, o : OutDirs] \cup [a : {"run"}, i : {<<"-">>}, o : {<<"-">>}]
Others == [a : {"put"}, p : OutPaths, c : Junk] \cup [a : {"del"}, p : InPaths \cup OutPaths]
          \cup [a : {"mkdir"}, p : InDirs \cup OutDirs \cup OutPaths]
Pick(n, S) == (* fresh in every state *) RandomSubset(IF Cardinality(S) < n THEN Cardinality(S) ELSE n, S)
Actions(h) == IF h = <<>> THEN Puts ELSE IF Random THEN Pick(9, Puts) \cup Pick(4, Others) \cup Pick(5, Runs) \cup Pick(3, DirRuns)
           ELSE Puts \cup Others \cup Runs \cup DirRuns
Init == /\ tool \in {"xsd", "wsdl"}
        /\ \E c \in [Start -> Contents] :
             /\ b = [fs |-> c, dirs |-> {<<>>} \cup UNION {Above(p) : p \in Start}]
             /\ hist = SeqOf({[a |-> "put", p |-> p, c |-> c[p]] : p \in Start})
Step(x) == /\ Enabled(tool, b, x) = TRUE
           /\ b' = Outcome(tool, b, x)
           /\ hist' = Append(hist, x)
           /\ UNCHANGED tool
Next == Len(hist) < Steps + Cardinality(Start) /\ \E x \in Actions(hist) : Step(x)
LastAct == hist[Len(hist)]
Emit == hist # <<>> /\ LastAct.a = "run" => PrintT("@@" \o ToJson([tool |-> tool, ops |-> hist]))

(* The specification agrees with itself: the outcome it goes on from is       *)
(* allowed, with some exit status and output.                                *)
Agrees ==
  [][\E e \in {0, 1}, o \in {Nothing} \cup {Code(c) : c \in Contents} :
       Allowed(tool, b, LastAct', [fs |-> b'.fs, dirs |-> b'.dirs, exit |-> e, stderr |-> e = 1, stdout |-> o])]_vars
(* Running again changes nothing, and what a run wrote is code.              *)
Stable == [][LastAct'.a = "run" =>
               /\ Outcome(tool, b', LastAct') = b'
               /\ \A p \in DOMAIN b'.fs : (p \notin DOMAIN b.fs \/ b'.fs[p] # b.fs[p]) => b'.fs[p][1] = "code"
               /\ DOMAIN b.fs \subseteq DOMAIN b'.fs]_vars

(* Small scope and large.                                                    *)
SmallIn == {<<"in", "a.xsd">>, <<"in", "d", "b.v2.xml">>}
SmallOut == {<<"out", "a.rs">>}
SmallOutDirs == {<<"out">>}
SmallInDirs == {<<"in">>}
SmallContents == {<<"doc", 1>>, <<"doc", 2>>, <<"bad", 1>>}
LargeIn == {<<"in", "a.xsd">>, <<"in", "b.v2.xml">>, <<"in", "plain">>, <<"in", "sp ace é.xsd">>, <<"in", ".hid.xsd">>, <<"in", "d", "a.xsd">>, <<"in", "d", "e.d", "f.xsd">>, <<"in", "d", "e.d", "g.rs">>,
            <<"input", "xsd", "a.xsd">>, <<"input", "xsd", "s", "t.xsd">>, <<"input", "wsdl", "a.wsdl">>, <<"input", "wsdl", "s", "t.xml">>, <<"single.xsd">>}
LargeOut == {<<"out", "a.rs">>, <<"out", "d", "e.d", "f.rs">>, <<"out", "b.v2.rs">>, <<"out", "keep.rs">>, <<"o.txt">>, <<"output", "rs", "a.rs">>, <<"output", "wsdl-rs", "s", "t.rs">>, <<"new", "x", "plain.rs">>}
LargeOutDirs == {<<"out">>, <<"new", "x">>, <<"output", "rs">>}
LargeInDirs == {<<"in">>, <<"in", "d">>, <<"input", "xsd">>, <<"input", "wsdl">>, <<"in", "empty">>}
LargeContents == {<<"doc", i>> : i \in 1..4} \cup {<<"bad", i>> : i \in 1..3}
None == {}
=============================================================================
