"""Checks on histories of calls: P08 (determinism, no history). Histories come from the
specification (SessionGen), are replayed on the real library, and the recorded sessions are
checked against the specification (SessionTrace)."""
import json, os, random
from lib import *
from render import render
from c_wsdl import wsdl_documents, render_wsdl

XS = "http://www.w3.org/2001/XMLSchema"
HEAD = '<xs:schema xmlns:xs="%s" xmlns:%s="urn:%s" targetNamespace="urn:%s">'

# Texts chosen to interfere: same names with different prefixes and meanings.
def clash(p, kind):
    n = {"a": ("xs:int", "xs:date"), "b": ("xs:string", "xs:boolean"), "c": (p + ":S", p + ":L")}[kind]
    return (HEAD % (XS, p, p, p) +
            '<xs:complexType name="T"><xs:sequence><xs:element name="v" type="%s"/><xs:choice><xs:element name="c" type="%s"/>'
            '<xs:element name="d"><xs:complexType><xs:sequence><xs:element name="w" type="%s" maxOccurs="%s"/></xs:sequence></xs:complexType></xs:element></xs:choice></xs:sequence>'
            '<xs:attributeGroup ref="%s:G"/></xs:complexType>'
            '<xs:complexType name="U"><xs:complexContent><xs:extension base="%s:%s"><xs:sequence><xs:element name="x" type="%s"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType>'
            % (n[0], n[1], n[1], "3" if kind == "a" else "1", p, p, "B" if kind == "b" else "T", n[0]) +
            ('<xs:complexType name="B"><xs:attribute name="q" type="xs:int"/></xs:complexType>' if kind == "b" else "") +
            '<xs:attributeGroup name="G"><xs:attribute name="g" type="%s"/></xs:attributeGroup>' % n[1] +
            '<xs:simpleType name="S"><xs:restriction base="xs:string"><xs:maxLength value="%d"/></xs:restriction></xs:simpleType>' % len(p) +
            '<xs:simpleType name="L"><xs:list itemType="%s"/></xs:simpleType></xs:schema>' % n[0])


BAD = ['<xs:schema xmlns:xs="%s"><xs:element name="a"' % XS, "", "<a><b></a></b>", "<xs:schema/>",
       (HEAD % (XS, "t", "t", "t")) + '<xs:complexType name="T"><xs:sequence>',
       clash("t", "a")[:-3], clash("q", "b").replace("</xs:list", "</xs:lst").replace("<xs:list", "<xs:list <")]


def texts_for(kinds, rnd, docs, wsdls):
    out = []
    for k in kinds:
        if k == "bad":
            out.append(rnd.choice(BAD))
        elif k == "wsdl":
            many = [w for w in wsdls if len(w["pts"]) > 1]
            twins = [w for w in many if len({x["name"].lower() for x in w["pts"]}) < len(w["pts"])]
            out.append(render_wsdl(rnd.choice(rnd.choice([wsdls, many or wsdls, twins or wsdls]))))
        elif rnd.random() < 0.4 or not docs:
            out.append(clash(rnd.choice(["t", "tns", "q", "xs2"]), rnd.choice("abc")))
        else:
            out.append(render(rnd.choice(docs)))
    return out


def baselines(texts):
    """What fresh processes make of each text, three times over; the index of a result."""
    cmds = []
    for ts, kinds in texts:
        for t, k in zip(ts, kinds):
            ops = [dict(a="wsdl", t=1)] if k == "wsdl" else \
                [dict(a="parse", t=1), dict(a="new"), dict(a="gen", g=1, f=1), dict(a="entity", g=1, f=1)]
            cmds.append(dict(cmd="session", texts=[t], ops=ops))
    uniq = {}
    for c in cmds:
        uniq.setdefault((c["texts"][0], c["ops"][0]["a"]), c)
    keys = list(uniq)
    from concurrent.futures import ThreadPoolExecutor
    runs = []
    for _ in range(3):
        with ThreadPoolExecutor(8) as ex:      # one process per text
            runs.append(list(ex.map(lambda k: harness([dict(uniq[k])], jobs=1)[0], keys)))
    base, unstable = {}, []
    for n, k in enumerate(keys):
        r = [x[n].get("res") for x in runs]
        if not (r[0] == r[1] == r[2]):
            unstable.append(k[0])
        base[k] = r[0]
    return base, unstable


def p08(run, replay=None):
    rnd = random.Random(run.seed)
    if replay:
        hist = [replay["history"]]
        texts = [replay["texts"]]
    else:
        recs, text, ok = tlc("SessionGen", cfg="SessionAll.cfg", workers=6)
        if not ok:
            raise ToolError(text[-2000:])
        run.count(text)
        run.cov["exhaustive"] = True
        hist = recs
        recs, text, ok = tlc("SessionGen", cfg="SessionSim.cfg", sim=dict(num=60 if run.quick else 600, depth=26, seed=run.seed))
        if not ok:
            raise ToolError(text[-2000:])
        run.count(text)
        uniq = {json.dumps(r, sort_keys=True): r for r in recs}
        longer = [uniq[k] for k in sorted(uniq)]
        hist = hist + rnd.sample(longer, min(len(longer), 400 if run.quick else 4000))
        from c_xsd import documents
        docs, _ = documents(run, None, 150 if run.quick else 1000)
        wsdls = wsdl_documents(run, False, 100 if run.quick else 600)
        pools = {}
        texts = []
        for h in hist:           # a limited number of sets of texts, so that baselines stay few
            k = tuple(h["kind"])
            pool = pools.setdefault(k, [texts_for(k, rnd, docs, wsdls) for _ in range(60 if run.quick else 400)])
            texts.append(rnd.choice(pool))
    base, unstable = baselines([(ts, h["kind"]) for ts, h in zip(texts, hist)])
    run.add("baseline_texts", len(base))
    for t in unstable:
        run.violation(dict(property=run.prop, why="differs between processes", text=t))
    obs = harness([dict(cmd="session", texts=ts, ops=h["ops"]) for ts, h in zip(texts, hist)])
    lines = []
    for ts, h, o in zip(texts, hist, obs):
        res = []
        filled = iter(o.get("res", []))
        for op in h["ops"]:
            r = next(filled, dict(st=o["st"]))
            res.append(code_of(op, r, ts, h["kind"], base))
        lines.append(dict(kind=h["kind"], ops=h["ops"], res=res))
    log = os.path.join(run.dir, "sessions.ndjson")
    write_ndjson(log, lines)
    recs, text, ok = tlc("SessionTrace", env={"OBS": log}, workers=8, heap="8g", timeout=3000)
    if not ok or {r["line"] for r in recs} != set(range(1, len(lines) + 1)):
        raise ToolError("judging failed:\n" + text[-2000:])
    run.count(text)
    run.add("traces_validated_against_impl", len(lines))
    run.add("calls_replayed", sum(len(l["ops"]) for l in lines))
    for r in recs:
        if not r["ok"]:
            n = r["line"] - 1
            run.violation(dict(property=run.prop, history=dict(kind=hist[n]["kind"], ops=hist[n]["ops"]),
                               texts=texts[n], verdict=r, observed=obs[n].get("res", [None] * r["at"])[r["at"] - 1]))
    if lines:
        run.sample(lines[0])
        run.sample(lines[-1])


def code_of(op, r, ts, kinds, base):
    """Abstracts an observed result: the texts whose fresh code it is, 0 for an error, -1 for nothing."""
    a = op["a"]
    if a in ("new", "clone"):
        return [-1] if r["st"] == "ok" else []
    if a == "parse":
        return {"ok": [-1], "err": [0]}.get(r["st"], [])
    if r["st"] != "ok":
        return [0] if r["st"] == "err" else []
    key, at = {"wsdl": ("wsdl", 0), "gen": ("parse", 2), "entity": ("parse", 3)}[a]
    kind = "wsdl" if a == "wsdl" else "xsd"
    return [t + 1 for t, k in enumerate(kinds)
            if k == kind and len(base[(ts[t], key)] or []) > at and base[(ts[t], key)][at] == r]
