"""P20: texts that are not well-formed are errors, supported schemas are not."""
import json, os, random
from lib import *
from render import render, XS
from c_xsd import documents, convert, judge, corpus, edited

BASE = ['''<?xml version="1.0" encoding="UTF-8"?>
<!-- c -->
<xs:schema xmlns:xs="%s" xmlns:t='urn:t' targetNamespace="urn:t"><xs:complexType name="T"><xs:sequence>
<xs:element name="a" type="xs:int" minOccurs='0'/></xs:sequence></xs:complexType></xs:schema>
''' % XS,
        '''<schema xmlns="%s"><annotation><documentation>a &lt; b<![CDATA[ ]] > ]]> c</documentation></annotation><?pi x?><simpleType name='S' ><restriction base = "string"/></simpleType ></schema><!-- end -->''' % XS]


def meant(run, docs, styles):
    """A supported schema is not only accepted: its definitions are there, whatever surrounds it."""
    texts, obs = convert(docs, styles)
    verdicts = judge(run, [dict(doc=d, obs=o, partial=False) for d, o in zip(docs, obs)], "nest")
    for i, d in enumerate(docs):
        if not verdicts[i]["ok"]:
            run.violation(dict(property=run.prop, doc=d, style=styles[i], text=texts[i], verdict=verdicts[i], msg=obs[i].get("msg")))


def converted(run, docs):
    """Documents of the abstract syntax, with a meaning or not: converting them comes to an end without a panic."""
    texts, obs = convert(docs)
    verdicts = judge(run, [dict(doc=d, obs=dict(o, items=[], uses=[]), partial=True) for d, o in zip(docs, obs)], "none")
    for i, d in enumerate(docs):
        if not verdicts[i]["ok"]:
            run.violation(dict(property=run.prop, rough=d, text=texts[i], verdict=verdicts[i], msg=obs[i].get("msg")))


def p20(run, replay=None):
    rnd = random.Random(run.seed)
    if replay and "rough" in replay:
        converted(run, [replay["rough"]])
        return
    if replay and "doc" in replay:
        meant(run, [replay["doc"]], [replay["style"]])
        return
    if replay:
        cases = [replay["case"]]
    else:
        docs, _ = documents(run, None, 160 if run.quick else 1600)
        meant(run, docs, [rnd.randrange(1, 10 ** 9) for _ in docs])
        circles, text, ok = tlc("XsdCircle", workers=6, heap="4g", timeout=900)
        if not ok:
            raise ToolError("circles failed:\n" + text[-2000:])
        run.count(text)
        run.add("circular_documents", len(circles))
        converted(run, circles + edited(run, corpus(run), 300 if run.quick else 5000, rough=True))
        whole = list(BASE) + [render(d, rnd.choice([None, rnd.randrange(10 ** 9)])) for d in docs]
        path = os.path.join(run.dir, "texts.ndjson")
        small = sorted((t for t in whole[len(BASE):] if 250 < len(t) < 700), key=len)
        write_ndjson(path, [dict(text=t) for t in BASE + small[:1 if run.quick else 6]])
        recs, text, ok = tlc("XmlFaults", cfg="XmlFaults.cfg" if run.quick else "XmlFaultsDeep.cfg", env={"TEXTS": path}, workers=8, heap="6g", timeout=3000)
        if not ok:
            raise ToolError("faults failed:\n" + text[-2000:])
        run.count(text)
        run.cov["exhaustive"] = True
        # faults anywhere in longer texts
        extra = []
        for t in whole[len(BASE):]:
            for _ in range(6 if run.quick else 30):
                i = rnd.randrange(len(t))
                j = min(len(t), i + rnd.choice([1, 1, 2, 5, 30]))
                extra.append(rnd.choice([t[:i], t[:i] + t[j:], t[:j] + t[i:], t[:i] + rnd.choice(list("<>&\"'/ a=:")) + t[i:], t + rnd.choice(["<a/>", "x", "<", "&#32;", "</xs:schema>"]),
                                         rnd.choice(["x", "<a/>", "&#9;", "<?xml version='1.0'?>\n<?xml version='1.0'?>"]) + t]))
        seen = set()
        cases = [dict(text=t, whole=True) for t in whole]
        for t in [r["text"] for r in recs] + extra + ["", " ", "x", "<", "<a", "<!-- -->", "<?xml version='1.0'?>"]:
            if t not in seen:
                seen.add(t)
                cases.append(dict(text=t, whole=False))
    obs = harness([dict(cmd="parse", text=c["text"]) for c in cases])
    log = os.path.join(run.dir, "log.ndjson")
    write_ndjson(log, [dict(c, st=o["st"]) for c, o in zip(cases, obs)])
    recs, text, ok = tlc("XmlJudge", env={"OBS": log}, workers=8, heap="12g", timeout=3000)
    if not ok or {r["line"] for r in recs} != set(range(1, len(cases) + 1)):
        raise ToolError("judging failed:\n" + text[-2000:])
    run.count(text)
    run.add("traces_validated_against_impl", len(cases))
    for v in ("bad", "wf", "unsure"):
        run.add("texts_" + v, sum(r["v"] == v for r in recs))
    for r in recs:
        if not r["ok"]:
            c = cases[r["line"] - 1]
            run.violation(dict(property=run.prop, case=c, verdict=r, msg=obs[r["line"] - 1].get("msg")))
    if cases:
        run.sample(dict(text=cases[-1]["text"], st=obs[-1]["st"]))
