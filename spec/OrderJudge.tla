------------------------------ MODULE OrderJudge -----------------------------
(* Recorded comparisons against the specification.  A line:                  *)
(* [ty, a, b, st, cmp (lt, eq, gt, none; "-": the type has no order), eq, ne, *)
(* ops (which of < <= > >= hold)]; or, for the value a type begins with,      *)
(* [ty, a = "default", st, val, out, back, bval].                            *)
EXTENDS Order, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.OBS)
Operators(o) == CASE o = "lt" -> <<"<", "<=">> [] o = "gt" -> <<">", ">=">> [] o = "eq" -> <<"<=", ">=">> [] OTHER -> <<>>
Comparison(r) ==
  LET o == Compared(r.ty, r.a, r.b) IN
  /\ r.st = "ok" /\ r.eq = ~r.ne
  /\ o # "open" => /\ r.eq = (o = "eq")
                   /\ r.ty \in Ordered => r.cmp = o /\ r.ops = Operators(o)
Beginning(r) == /\ r.st = "ok" /\ r.back = "same" /\ r.bval = r.val
                /\ IsValue(r.ty, r.val)
                /\ LET m == Meaning(r.ty, r.out) IN m.v \in {"ok", "open"}
Ok(r) == IF r.a = "default" THEN Beginning(r) ELSE Comparison(r)
Verdict(r) == IF r.a = "default" THEN "default" ELSE Compared(r.ty, r.a, r.b)
VARIABLE l
Init == l \in 1..Len(Log)
Next == UNCHANGED l
Tell == PrintT("@@" \o ToJson([line |-> l, ok |-> Ok(Log[l]), v |-> Verdict(Log[l])]))
=============================================================================
