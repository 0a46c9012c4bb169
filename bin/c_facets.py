"""P10: validate() of generated types, against Facets.tla."""
import os, random
from xml.sax.saxutils import quoteattr
from lib import *
from e2e import Crate

PER = 40                                   # types of one schema


def cases(run):
    recs, text, ok = tlc("FacetsScope", cfg="FacetsScope.cfg" if run.quick else "FacetsScopeDeep.cfg", workers=8, heap="8g", timeout=3000)
    if not ok:
        raise ToolError("the specification does not have the property:\n" + text[-3000:])
    run.count(text)
    recs.sort(key=lambda r: json.dumps(r, sort_keys=True))
    run.add("restrictions_of_the_family", len(recs))
    if run.quick:                          # of each base and kind of facets, some
        rnd = random.Random(run.seed)
        by = {}
        for r in recs:
            by.setdefault((r["base"], r["place"], tuple(f["f"] for f in r["facets"])), []).append(r)
        recs = [r for k in sorted(by) for r in rnd.sample(by[k], min(2, len(by[k])))]
    return recs


def simple_type(case, name):
    inner = "".join('<xs:%s value=%s/>' % (f["f"], quoteattr(f["v"])) for f in case["facets"])
    return '<xs:simpleType%s><xs:restriction base="xs:%s">%s</xs:restriction></xs:simpleType>' % (name, case["base"], inner)


def schema(cases):
    out = ['<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:t="urn:t" targetNamespace="urn:t" elementFormDefault="qualified">']
    for i, c in enumerate(cases):
        if c["place"] == "top":
            out.append(simple_type(c, ' name="Ta%d"' % i))
        elif c["place"] == "el":
            out.append('<xs:element name="Ta%d">%s</xs:element>' % (i, simple_type(c, "")))
        else:
            out.append('<xs:complexType name="Ta%d"><xs:sequence><xs:element name="inner">%s</xs:element></xs:sequence></xs:complexType>'
                       % (i, simple_type(c, "")))
    return "\n".join(out + ["</xs:schema>"])


def types(obs):
    """case number -> path of its type in the generated code"""
    out = {}
    for it in obs.get("items", []):
        if it["k"] != "tuple":
            continue
        owner = it["path"][0] if it["path"] else it["name"]
        digits = "".join(ch for ch in owner if ch.isdigit())
        if digits:
            out[int(digits)] = "::".join(it["path"] + [it["name"]])
    return out


def p10(run, replay=None):
    todo = [replay["case"]] if replay else cases(run)
    groups = [list(range(k, min(k + PER, len(todo)))) for k in range(0, len(todo), PER)]
    texts = [schema([todo[i] for i in g]) for g in groups]
    obs = harness([dict(cmd="xsd", text=t, raw=True) for t in texts])
    modules, lost = [], {}
    for g, o in zip(groups, obs):
        found = types(o) if o["st"] == "ok" else {}
        for n, i in enumerate(g):
            if n not in found:
                lost[i] = "no type for it in the generated code (%s)" % o["st"]
        modules.append((o.get("code", ""), {"c%d" % i: ("valid", found[n]) for n, i in enumerate(g) if n in found}))
    crate = Crate(run, "p10")
    bad = crate.build(modules)
    if bad and len(groups) > 1:            # find the types at fault: one schema each
        run.log("do not compile:", len(bad), "groups")
        few = [i for m in bad for i in groups[m]][:160]
        for i in few:
            o = harness([dict(cmd="xsd", text=schema([todo[i]]), raw=True)])[0]
            found = types(o) if o["st"] == "ok" else {}
            modules.append((o.get("code", ""), {"c%d" % i: ("valid", found[0])} if found else {}))
            groups.append([i])
        for m in bad:
            modules[m] = ("", {})
        bad = crate.build(modules)
    for m, why in bad.items():
        for i in groups[m]:
            lost.setdefault(i, "does not compile: " + why)
    ask = [i for i in range(len(todo)) if "c%d" % i in crate.where]
    answers = crate.run([dict(p="c%d" % i, xs=todo[i]["values"]) for i in ask])
    log = []
    for i, a in zip(ask, answers):
        c = todo[i]
        res = a.get("res") or [dict(st=a["st"], ok=False)] * len(c["values"])
        log.append(dict(base=c["base"], facets=c["facets"], place=c["place"],
                        res=[dict(x=x, st=r["st"], ok=r["ok"]) for x, r in zip(c["values"], res)]))
    for i, why in sorted(lost.items()):
        run.violation(dict(property=run.prop, case=todo[i], why=why))
    path = os.path.join(run.dir, "log.ndjson")
    write_ndjson(path, log)
    recs, text, ok = tlc("FacetsJudge", env={"OBS": path}, workers=8, heap="8g", timeout=3000)
    if not ok or {r["line"] for r in recs} != set(range(1, len(log) + 1)):
        raise ToolError("judging failed:\n" + text[-3000:])
    run.count(text)
    run.add("restrictions", len(log))
    run.add("traces_validated_against_impl", sum(len(r["res"]) for r in log))
    run.add("values_allowed", sum(r["yes"] for r in recs))
    run.add("values_not_allowed", sum(r["no"] for r in recs))
    for r in sorted(recs, key=lambda r: r["line"]):
        if not r["ok"]:
            run.violation(dict(property=run.prop, case=todo[ask[r["line"] - 1]], wrong=r["wrong"]))
    for r in log[:: max(1, len(log) // 3)]:
        run.sample(r)
    crate.close()
