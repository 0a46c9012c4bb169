"""P11-P14: texts and values of the runtime types, against Lexical.tla."""
import os
from lib import *


def cases(run):
    deep = "0" if run.quick else "1"
    env = {"PROP": run.prop, "DEEP": deep}
    recs, text, ok = tlc("LexGen", env=env, workers=8, heap="10g", timeout=3000)
    if not ok:
        raise ToolError("LexGen failed:\n" + text[-3000:])
    run.count(text)
    run.cov["exhaustive"] = True
    more, text, ok = tlc("LexGen", cfg="LexSim.cfg", env=dict(env, EDITS="2" if run.quick else "3"),
                         sim=dict(num=3000 if run.quick else 40000, depth=4, seed=run.seed), workers=8, heap="6g", timeout=3000)
    if not ok:
        raise ToolError("simulation of LexGen failed:\n" + text[-3000:])
    run.count(text)
    out, seen = [], set()
    for r in recs + more:
        k = (r["ty"], r["m"], str(r["x"]))
        if k not in seen:
            seen.add(k)
            out.append(r)
    return out


def pairs(run):
    recs, text, ok = tlc("OrderGen", env={"DEEP": "0" if run.quick else "1"}, workers=8, heap="10g", timeout=3000)
    if not ok:
        raise ToolError("OrderGen failed:\n" + text[-3000:])
    run.count(text)
    run.cov["exhaustive"] = True
    return [dict(ty=ty, a="default", b="") for ty in sorted({r["ty"] for r in recs})] + recs


def order(run, replay=None):
    lexical(run, replay, pairs, lambda c: dict(a=c["a"], b=c["b"]), "OrderJudge",
            dict(st="panic", cmp="", ops=[], eq=False, ne=False, val=[], out="", back="", bval=[]))


def lexical(run, replay=None, cases=cases, item=lambda c: c["x"], judge="LexJudge",
            dead=dict(st="panic", val=[], extra=[], out="", back="", bval=[], out2="")):
    todo = [replay["case"]] if replay else cases(run)
    by = {}
    for i, c in enumerate(todo):
        by.setdefault(c["ty"], []).append(i)
    batches = [(ty, ix[k:k + 400]) for ty, ix in by.items() for k in range(0, len(ix), 400)]
    obs = harness([dict(cmd="lex", ty=ty, items=[item(todo[i]) for i in ix]) for ty, ix in batches])
    log = [None] * len(todo)
    for (ty, ix), o in zip(batches, obs):
        if o["st"] == "ok":
            res = o["res"]
        else:                              # the process died: find the item
            res = []
            for i in ix:
                one = harness([dict(cmd="lex", ty=ty, items=[item(todo[i])])])[0]
                res.append(one["res"][0] if one["st"] == "ok" else dead)
        for i, r in zip(ix, res):
            log[i] = dict(todo[i], **dict(dead, **r))
    path = os.path.join(run.dir, "log.ndjson")
    write_ndjson(path, log)
    recs, text, ok = tlc(judge, env={"OBS": path, "PROP": run.prop}, workers=8, heap="12g", timeout=3000)
    if not ok or {r["line"] for r in recs} != set(range(1, len(log) + 1)):
        raise ToolError("judging failed:\n" + text[-3000:])
    run.count(text)
    run.add("traces_validated_against_impl", len(log))
    for v in sorted({r["v"] for r in recs}):
        run.add("cases_" + v, sum(r["v"] == v for r in recs))
    for r in sorted(recs, key=lambda r: r["line"]):
        if not r["ok"]:
            run.violation(dict(property=run.prop, case=todo[r["line"] - 1], verdict=r, observed=log[r["line"] - 1]))
    for c in log[:: max(1, len(log) // 3)]:
        run.sample(c)
