------------------------------ MODULE LexJudge ------------------------------
(* Recorded readings, writings and conversions against the specification.    *)
(* A line: [ty, m (made from fields, or read from text), x, st, val, extra,   *)
(* out, back, bval, out2].                                                   *)
EXTENDS Lexical, Json, IOUtils
Prop == IOEnv.PROP
Log == ndJsonDeserialize(IOEnv.OBS)
Fields(ty, f) == IF ty = "decimal" /\ f # <<>> THEN Scaled(f[1], f[2]) ELSE f

(* Reading: accepted exactly when it has a meaning, with that value.         *)
Reading(r) ==
  LET m == Meaning(r.ty, r.x) IN
  /\ r.st # "panic"
  /\ m.v = "bad" => r.st = "err"
  /\ m.v = "ok" => r.st = "ok" /\ Fields(r.ty, r.val) = m.val
(* Constructing from fields: the same ranges.                                *)
Making(r) == /\ r.st = IF Constructible(r.ty, r.x) THEN "ok" ELSE "err"
             /\ r.st = "ok" => Fields(r.ty, r.val) = Fields(r.ty, r.x)
(* Writing: a text that means the value, reads back equal and is stable.     *)
Writing(r) ==
  LET val == Fields(r.ty, r.val)
      m == Meaning(r.ty, r.out)
  IN r.st = "ok" =>
       \/ /\ m.v \in {"ok", "open"} /\ (m.v = "ok" => m.val = val)
          /\ r.back = "same" /\ Fields(r.ty, r.bval) = val /\ r.out2 = r.out
       \/ m.v = "open" /\ ~r.m /\ Meaning(r.ty, r.x).v = "open" /\ r.back # "panic"
       \/ m.v = "open" /\ r.m /\ r.ty \in {"gYear", "gYearMonth"} /\ r.back # "panic"
(* Parts of values.                                                          *)
Converting(r) ==
  r.st = "ok" =>
    IF r.ty = "duration"
    THEN LET s == StdOf(r.val) IN s = <<"open">> \/ r.extra = s
    ELSE IF r.ty = "decimal" THEN Scaled(r.extra[1], r.extra[2]) = Fields(r.ty, r.val)
    ELSE r.extra = PartsOf(r.ty, r.val)
Ok(r) ==
  CASE Prop = "P11" -> IF r.m THEN Making(r) ELSE Reading(r)
    [] Prop = "P12" -> Writing(r) /\ Converting(r)
    [] OTHER -> (IF r.m THEN Making(r) ELSE Reading(r)) /\ Writing(r) /\ Converting(r)
Verdict(r) == IF r.m THEN "value" ELSE Meaning(r.ty, r.x).v
VARIABLE l
Init == l \in 1..Len(Log)
Next == UNCHANGED l
Tell == PrintT("@@" \o ToJson([line |-> l, ok |-> Ok(Log[l]), v |-> Verdict(Log[l])]))
=============================================================================
