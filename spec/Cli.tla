-------------------------------- MODULE Cli --------------------------------
(* The command line tools over a file tree.                                  *)
(*                                                                           *)
(* A file system is [fs, dirs]: the content of every file by path (sequences  *)
(* of names), and the directories.  Contents: <<"doc", i>> (a document the    *)
(* tool converts), <<"bad", i>> (anything else), <<"code", i>> (exactly the   *)
(* code of document i), <<"junk", i>>, <<"other">> (none of these).           *)
(* A step is an action of the user or a run of a tool; Allowed says which     *)
(* outcomes [fs, dirs, exit, stdout, stderr] of a step there may be.          *)
EXTENDS Naming, FiniteSets, TLC

Range(f) == {f[x] : x \in DOMAIN f}
Parent(p) == SubSeq(p, 1, Len(p) - 1)
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Above(p) == {SubSeq(p, 1, i) : i \in 0..(Len(p) - 1)}
RECURSIVE DotFrom(_, _)                    \* the last dot that is not the first character, or 0
DotFrom(s, i) == IF i <= 1 THEN 0 ELSE IF Ch(s, i) = "." THEN i ELSE DotFrom(s, i - 1)
RsName(n) == LET d == DotFrom(n, Len(n)) IN (IF d = 0 THEN n ELSE SubSeq(n, 1, d - 1)) \o ".rs"
Files(f, d) == {p \in DOMAIN f : IsPrefix(d, p) /\ p # d}
Below(p, d) == SubSeq(p, Len(d) + 1, Len(p))
Target(p, i, o) == o \o Parent(Below(p, i)) \o <<RsName(p[Len(p)])>>
IsDoc(c) == c[1] = "doc"
Code(c) == <<"code", c[2]>>
Writable(f, ds, p) == p \notin ds /\ \A q \in Above(p) : q \notin DOMAIN f
Set(f, p, c) == [q \in DOMAIN f \cup {p} |-> IF q = p THEN c ELSE f[q]]
Nothing == <<"none">>

(* One file.  o is a path or <<"-">> for the standard output.               *)
StdOut == <<"-">>
RunFile(b, i, o, a) ==                     \* b: before, a: after
  IF IsDoc(b.fs[i]) /\ (o = StdOut \/ (Writable(b.fs, b.dirs, o) /\ Parent(o) \in b.dirs))
  THEN /\ a.exit = 0 /\ a.dirs = b.dirs
       /\ IF o = StdOut THEN a.fs = b.fs /\ a.stdout = Code(b.fs[i])
          ELSE a.fs = Set(b.fs, o, Code(b.fs[i])) /\ a.stdout = Nothing
  ELSE /\ a.exit # 0 /\ a.stderr /\ a.stdout = Nothing
       /\ a.dirs = b.dirs /\ a.fs = b.fs
(* A directory.  All files are documents to convert.                         *)
RunDir(b, i, o, a) ==
  LET all == Files(b.fs, i)
      target(p) == Target(p, i, o)
      works(p) == IsDoc(b.fs[p]) /\ Writable(b.fs, b.dirs, target(p))
      mirror == {o \o Below(d, i) : d \in {d \in b.dirs : IsPrefix(i, d)}}
      needed == UNION {Above(target(p)) : p \in all}
      full == UNION {Above(d) \cup {d} : d \in mirror}
      done == {p \in all : target(p) \in DOMAIN a.fs /\ a.fs[target(p)] = Code(b.fs[p])}
      written(ps) == {target(p) : p \in ps}
  IN /\ a.stdout = Nothing
     /\ IF \A p \in all : works(p)
        THEN /\ a.exit = 0
             /\ a.fs = [q \in DOMAIN b.fs \cup written(all) |->
                          IF q \in written(all) THEN Code(b.fs[CHOOSE p \in all : target(p) = q]) ELSE b.fs[q]]
             /\ b.dirs \cup needed \subseteq a.dirs /\ a.dirs \subseteq b.dirs \cup full
        ELSE /\ a.exit # 0 /\ a.stderr     \* what works may or may not have been done
             /\ DOMAIN b.fs \subseteq DOMAIN a.fs
             /\ \A q \in DOMAIN a.fs :
                  \/ q \in DOMAIN b.fs /\ a.fs[q] = b.fs[q]
                  \/ \E p \in all : works(p) /\ q = target(p) /\ a.fs[q] = Code(b.fs[p])
             /\ b.dirs \subseteq a.dirs /\ a.dirs \subseteq b.dirs \cup full
Missing(b, a) == a.exit # 0 /\ a.stderr /\ a.stdout = Nothing /\ a.fs = b.fs /\ a.dirs = b.dirs

(* Without arguments the tools read input/xsd (or input/wsdl), and write       *)
(* directories to output/rs (or output/wsdl-rs).                              *)
InOf(tool, x) == IF x.i = <<"-">> THEN <<"input", tool>> ELSE x.i
OutOf(tool, x) == IF x.o = <<"-">> THEN (IF tool = "xsd" THEN <<"output", "rs">> ELSE <<"output", "wsdl-rs">>) ELSE x.o

Allowed(tool, b, x, a) ==
  CASE x.a = "put" -> /\ a.fs = Set(b.fs, x.p, x.c) /\ a.dirs = b.dirs \cup Above(x.p)
    [] x.a = "del" -> /\ a.fs = [q \in DOMAIN b.fs \ {x.p} |-> b.fs[q]] /\ a.dirs = b.dirs
    [] x.a = "mkdir" -> a.fs = b.fs /\ a.dirs = b.dirs \cup Above(x.p) \cup {x.p}
    [] x.a = "run" -> LET i == InOf(tool, x) IN
                      IF i \in DOMAIN b.fs THEN RunFile(b, i, x.o, a)
                      ELSE IF i \in b.dirs THEN RunDir(b, i, OutOf(tool, x), a)
                      ELSE Missing(b, a)

(* When the action makes sense (and the outcome is promised).                *)
Enabled(tool, b, x) ==
  CASE x.a = "put" -> x.p \notin b.dirs /\ \A q \in Above(x.p) : q \notin DOMAIN b.fs
    [] x.a = "del" -> x.p \in DOMAIN b.fs
    [] x.a = "mkdir" -> x.p \notin DOMAIN b.fs /\ x.p \notin b.dirs /\ \A q \in Above(x.p) : q \notin DOMAIN b.fs
    [] x.a = "run" ->
         LET i == InOf(tool, x)
             o == OutOf(tool, x)
         IN IF i \in b.dirs
            THEN /\ ~IsPrefix(i, o) /\ ~IsPrefix(o, i)
                 /\ o \notin DOMAIN b.fs /\ \A q \in Above(o) : q \notin DOMAIN b.fs
                 /\ \A p, q \in Files(b.fs, i) : p # q => Target(p, i, o) # Target(q, i, o)
                 (* a directory and the .rs file of a file of the same name   *)
                 /\ \A p \in Files(b.fs, i) : \A d \in b.dirs : Target(p, i, o) # o \o Below(d, i) \/ ~IsPrefix(i, d)
                 /\ \A d \in b.dirs : IsPrefix(i, d) => o \o Below(d, i) \notin DOMAIN b.fs
            ELSE x.o # i
(* An outcome, to go on from.                                                *)
Outcome(tool, b, x) ==
  LET same == [fs |-> b.fs, dirs |-> b.dirs]
      i == InOf(tool, x)
      o == OutOf(tool, x)
      all == Files(b.fs, i)
      works(p) == IsDoc(b.fs[p]) /\ Writable(b.fs, b.dirs, Target(p, i, o))
  IN CASE x.a = "put" -> [fs |-> Set(b.fs, x.p, x.c), dirs |-> b.dirs \cup Above(x.p)]
       [] x.a = "del" -> [fs |-> [q \in DOMAIN b.fs \ {x.p} |-> b.fs[q]], dirs |-> b.dirs]
       [] x.a = "mkdir" -> [fs |-> b.fs, dirs |-> b.dirs \cup Above(x.p) \cup {x.p}]
       [] x.a = "run" /\ i \in DOMAIN b.fs ->
            IF x.o # StdOut /\ IsDoc(b.fs[i]) /\ Writable(b.fs, b.dirs, x.o) /\ Parent(x.o) \in b.dirs
            THEN [fs |-> Set(b.fs, x.o, Code(b.fs[i])), dirs |-> b.dirs] ELSE same
       [] x.a = "run" /\ i \notin DOMAIN b.fs /\ i \in b.dirs ->
            LET good == {p \in all : works(p)}
                ts == {Target(p, i, o) : p \in good}
                ds == UNION {Above(o \o Below(d, i)) \cup {o \o Below(d, i)} : d \in {d \in b.dirs : IsPrefix(i, d)}}
            IN [fs |-> [q \in DOMAIN b.fs \cup ts |-> IF q \in ts THEN Code(b.fs[CHOOSE p \in good : Target(p, i, o) = q]) ELSE b.fs[q]],
                dirs |-> b.dirs \cup ds]
       [] OTHER -> same
=============================================================================
