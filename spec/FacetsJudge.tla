----------------------------- MODULE FacetsJudge ---------------------------
(* Recorded calls of validate(): [base, facets, place, res], res a sequence   *)
(* of [x, st, ok]: the text, whether it could be read, whether it was valid.  *)
EXTENDS Facets, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.OBS)
VARIABLE l
Init == l \in 1..Len(Log)
Next == UNCHANGED l
Wrong(r, n) == LET o == r.res[n]
                   a == Allowed(r.base, r.facets, o.x)
               IN o.st # "ok" \/ (a = "yes" /\ ~o.ok) \/ (a = "no" /\ o.ok)
Tell == LET r == Log[l]
            w == {n \in 1..Len(r.res) : Wrong(r, n)}
        IN PrintT("@@" \o ToJson([line |-> l, ok |-> w = {}, wrong |-> {r.res[n] : n \in w},
                                  yes |-> Cardinality({n \in 1..Len(r.res) : Allowed(r.base, r.facets, r.res[n].x) = "yes"}),
                                  no |-> Cardinality({n \in 1..Len(r.res) : Allowed(r.base, r.facets, r.res[n].x) = "no"})]))
=============================================================================
