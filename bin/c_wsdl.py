"""Checks on WSDL documents (P16)."""
import json, os, random
from lib import *
import unrender
from render import Renderer, Style, XS
from xml.sax.saxutils import escape

WSDL = "http://schemas.xmlsoap.org/wsdl/"


def render_wsdl(w, seed=None):
    rnd = random.Random(seed)
    plain = seed is None
    pre = "wsdl" if plain or not w["tns"] or w["tp"] == "" or rnd.random() < 0.6 else ""
    p = pre + ":" if pre else ""
    ns = [("xmlns" + (":" + pre if pre else ""), WSDL)]
    if w["tns"]:
        ns += [("xmlns" + (":" + w["tp"] if w["tp"] else ""), w["tns"]), ("targetNamespace", w["tns"])]
    used = set()

    def note(q):
        if ":" in q and not (w["tns"] and q.split(":")[0] == w["tp"]):
            used.add(q.split(":")[0])
        return q

    def gap():
        return "" if plain else rnd.choice(["", "", "\n", "\n   ", "<!-- wsdl:operation -->"])

    parts_ = []                            # the children of definitions
    schemas = []
    for d in w["schemas"]:
        r = Renderer(d, Style(None if plain else rnd.randrange(10 ** 9)))
        t = r.schema()
        # namespaces may be declared further out
        if not plain and len({s["xp"] for s in w["schemas"]}) == 1 and d["xp"] and d["tp"] and pre and rnd.random() < 0.5:
            for q in ('"', "'"):
                t = t.replace("xmlns:%s=%s%s%s" % (d["xp"], q, XS, q), "", 1)
            if ("xmlns:" + d["xp"], XS) not in ns:
                ns.append(("xmlns:" + d["xp"], XS))
        schemas.append(t)
    if schemas:
        if not plain and len(schemas) > 1 and rnd.random() < 0.5:
            parts_ += ["<%stypes>%s</%stypes>%s" % (p, s, p, gap()) for s in schemas]
        else:
            parts_.append("<%stypes>%s</%stypes>" % (p, gap().join(schemas), p))
    for m in w["msgs"]:
        parts = "".join('<%spart name="%s" %s="%s"/>' % (p, x["name"], x["by"], note(x["q"])) + gap() for x in m["parts"])
        if not plain and rnd.random() < 0.2:
            parts = "<%sdocumentation>part</%sdocumentation>" % (p, p) + parts
        parts_.append(gap() + '<%smessage name="%s">%s</%smessage>' % (p, m["name"], parts, p))
    for pt in w["pts"]:
        ops = ""
        for o in pt["ops"]:
            doc = "<%sdocumentation>%s</%sdocumentation>" % (p, escape(o["doc"]), p) if o["doc"] else ""
            inner = gap() + '<%sinput message="%s"%s/>' % (p, o["inp"], "" if plain or rnd.random() < 0.7 else ' name="In"') + gap()
            if o["kind"] == "rr":
                inner += '<%soutput message="%s"/>' % (p, o["out"]) + gap()
                inner += "".join('<%sfault name="f%d" message="%s"/>' % (p, i, f) for i, f in enumerate(o["faults"]))
            ops += gap() + '<%soperation name="%s">%s%s</%soperation>' % (p, o["name"], doc, inner, p)
        parts_.append(gap() + '<%sportType name="%s">%s</%sportType>' % (p, pt["name"], ops, p))
    for pt in w["pts"]:
        if not plain and rnd.random() < 0.4:
            t = (w["tp"] + ":" if w["tp"] else "") + pt["name"]
            ops = "".join('<%soperation name="%s"><%sinput/><%soutput/></%soperation>' % (p, o["name"], p, p, p) for o in pt["ops"])
            parts_.append('<%sbinding name="%sBinding" type="%s">%s</%sbinding>' % (p, pt["name"], t, ops, p))
            parts_.append('<%sservice name="%sService"><%sport name="x" binding="y"/></%sservice>' % (p, pt["name"], p, p))
    if not plain and rnd.random() < 0.4:
        rnd.shuffle(parts_)                # they may come in any order
    body = "".join(parts_)
    ns += [("xmlns:" + u, "urn:other:" + u) for u in sorted(used)]
    head = "" if not plain and rnd.random() < 0.5 else '<?xml version="1.0" encoding="UTF-8"?>\n'
    return head + "<%sdefinitions %s>%s</%sdefinitions>\n" % (
        p, " ".join('%s="%s"' % (k, escape(v)) for k, v in ns), body, p)


def wsdl_documents(run, scope, num, seed_off=0):
    docs = []
    if scope:
        recs, text, ok = tlc("WsdlScope", cfg="WsdlScope.cfg" if run.quick else "WsdlScopeDeep.cfg", workers=6, heap="6g", timeout=3000)
        if not ok:
            raise ToolError("the specification does not have the property:\n" + text[-3000:])
        run.count(text)
        docs += recs
        run.add("family_documents", len(recs))
        run.cov["exhaustive"] = True
    if num:
        recs, text, ok = tlc("WsdlAuthor", sim=dict(num=num, depth=40, seed=run.seed + seed_off), heap="3g", timeout=3000)
        if not ok:
            raise ToolError("authoring failed:\n" + text[-2000:])
        run.count(text)
        docs += recs
    return docs


def edited(run, full, num):
    """Documents of the editing machine, which starts from extracts of the repository's WSDL documents."""
    rnd = random.Random(run.seed)
    docs = []
    for _ in range(2000 if full else 0):
        e = unrender.wsdl_extract(rnd.choice(full)[2], rnd)
        if e:
            docs.append(e)
        if len(docs) == 150:
            break
    if not docs:
        return docs
    src = os.path.join(run.dir, "corpus.ndjson")
    write_ndjson(src, docs)
    n = 2 if run.quick else 6
    from concurrent.futures import ThreadPoolExecutor
    recs = []
    with ThreadPoolExecutor(n) as ex:
        for r, text, ok in ex.map(lambda i: tlc("WsdlEdit", env={"CORPUS": src}, sim=dict(num=num // n, depth=60, seed=run.seed * 100 + i), heap="2g",
                                                timeout=3000, name="wedit%d" % i), range(n)):
            if not ok:
                raise ToolError("editing failed:\n" + text[-2000:])
            run.count(text)
            recs += r
    run.add("edited_documents", len(recs))
    return recs


def p16(run, replay=None):
    rnd = random.Random(run.seed)
    if replay:
        docs, seeds = [replay["doc"]], [replay["style"]]
    else:
        full = unrender.wsdl_corpus("/repo")
        run.add("documents_of_the_repository", len(full))
        docs = wsdl_documents(run, True, 400 if run.quick else 4000) + edited(run, full, 200 if run.quick else 2000) + [d for _, _, d in full]
        seeds = [None if i % 3 == 0 else rnd.randrange(1, 10 ** 9) for i in range(len(docs))]
    texts = [render_wsdl(d, s) for d, s in zip(docs, seeds)]
    if not replay:                         # as their authors wrote them, too
        texts += [t for _, t, _ in full]
        docs += [d for _, _, d in full]
        seeds += [None] * len(full)
    obs = harness([dict(cmd="wsdl", text=t) for t in texts])
    log = os.path.join(run.dir, "log.ndjson")
    write_ndjson(log, [dict(w=d, obs=o) for d, o in zip(docs, obs)])
    recs, text, ok = tlc("WsdlJudge", env={"OBS": log}, workers=8, heap="8g", timeout=3000)
    if not ok or {r["line"] for r in recs} != set(range(1, len(docs) + 1)):
        raise ToolError("judging failed:\n" + text[-2000:])
    run.count(text)
    run.add("traces_validated_against_impl", len(docs))
    for r in recs:
        if not r["ok"]:
            n = r["line"] - 1
            run.violation(dict(property=run.prop, doc=docs[n], style=seeds[n], text=texts[n], verdict=r, msg=obs[n].get("msg")))
    run.add("functions_compared", sum(len(o.get("fns", [])) for o in obs))
    if texts:
        run.sample(dict(text=texts[0], fns=obs[0].get("fns")))
        run.sample(dict(text=texts[-1], fns=obs[-1].get("fns")))


def model_text(D, seed=None):
    """Definitions (spec/WsdlModel.tla) as a document."""
    rnd = random.Random(seed)
    plain = seed is None
    at = lambda s: escape(s, {'"': "&quot;", "\n": "&#10;"})
    pre = "wsdl" if plain or "" in D["decl"] else rnd.choice(["wsdl", "w", "", "types"])
    p = pre + ":" if pre else ""
    ns = [("xmlns" + (":" + pre if pre else ""), WSDL), ("xmlns:soap", "http://schemas.xmlsoap.org/wsdl/soap/")]
    names = [("xmlns" + (":" + d if d else ""), D["tns"]) for d in D["decl"]] if D["tns"] else []
    rest = ([("targetNamespace", D["tns"])] if D["tns"] else []) + ([("name", D["name"])] if D["name"] else [])
    have = {n for n, _ in ns + names}

    def gap():
        return "" if plain else rnd.choice(["", "", "\n", "\n  ", "<!-- <wsdl:input message='no'/> -->", "<?pi input?>"])

    def tag(name, attrs, kids="", doc=""):
        attrs = list(attrs)
        if not plain:
            rnd.shuffle(attrs)
            if rnd.random() < 0.1:
                attrs.append(("soap:name", "no"))
        q = lambda v: "'" + v.replace("'", "&apos;") + "'" if not plain and rnd.random() < 0.3 else '"' + v + '"'
        a = "".join(" %s=%s" % (k, q(at(v))) for k, v in attrs)
        if doc:
            kids = "<%sdocumentation>%s</%sdocumentation>" % (p, escape(doc), p) + kids
        if not kids and (plain or rnd.random() < 0.7):
            return "<%s%s%s/>" % (p, name, a) + gap() + ext()
        return "<%s%s%s>" % (p, name, a) + kids + ext() + "</%s%s>" % (p, name) + gap() + ext()

    def ext():
        return "" if plain or rnd.random() < 0.75 else rnd.choice(
            ["<soap:thing message='no'/>", "<soap:input message='no'/>", "<soap:documentation>no</soap:documentation>", "<soap:part name='no'/>", "<soap:address><%sinput message='no'/></soap:address>" % p, "<soap:body use='literal'/>"]) + gap()

    named = lambda x: ([("name", x["name"])] if x["name"] else [])
    out = [gap()]
    for x in D["kids"]:
        k = x["k"]
        if k == "import":
            out.append(tag("import", [("namespace", x["ns"]), ("location", x["loc"])]))
        elif k == "types":
            inner = "".join('<xs:schema xmlns:xs="%s"%s/>' % (XS, ' targetNamespace="%s"' % t if t else "") + gap() for t in x["schemas"])
            out.append(tag("types", [], inner))
        elif k == "message":
            out.append(tag("message", named(x), gap() + ext() + "".join(
                tag("part", named(y) + ([(y["by"], y["q"])] if y["by"] != "none" else [])) for y in x["parts"])))
        elif k == "portType":
            ops = ""
            for o in x["ops"]:
                i, u = (tag(n, named(o[f]) + [("message", o[f]["msg"])]) for n, f in (("input", "inp"), ("output", "out")))
                fs = "".join(tag("fault", named(f) + [("message", f["msg"])]) for f in o["faults"])
                body = {"rr": i + u + fs, "ow": i, "sr": u + i + fs, "no": u}[o["kind"]]
                ops += tag("operation", named(o) + ([("parameterOrder", o["order"])] if o["order"] else []), gap() + ext() + body, o["doc"])
            out.append(tag("portType", named(x), gap() + ext() + ops))
        elif k == "binding":
            ops = "".join(tag("operation", named(o), '<soap:operation soapAction="a"/>' + tag("input", [], '<soap:body use="literal"/>') + tag("output", [])) for o in x["ops"])
            out.append(tag("binding", named(x) + [("type", x["ty"])], '<soap:binding style="document" name="no"/>' + gap() + ops))
        elif k == "service":
            out.append(tag("service", named(x), tag("port", [("name", "p"), ("binding", "b")], '<soap:address location="l"/>')))
        elif k == "ext":
            out.append(rnd.choice(["<soap:thing/>", "<soap:message name='A'/>", "<soap:portType name='P'/>", "<soap:binding name='x' type='y'/>",
                                   "<soap:types><%smessage name='A'/></soap:types>" % p]))
        elif k == "doc":
            out.append("<%sdocumentation>said <b>here</b></%sdocumentation>" % (p, p))
    attrs = ns + names + rest
    if not plain:
        rnd.shuffle(attrs)
    return "<%sdefinitions%s>%s</%sdefinitions>" % (p, "".join(' %s="%s"' % (k, at(v)) for k, v in attrs), "".join(out), p)


def p23(run, replay=None):
    if replay:
        defs, texts = [replay["def"]], [replay["text"]]
    else:
        defs = []
        small, text, ok = tlc("WsdlModelScope", workers=6)
        if not ok:
            raise ToolError("the specification does not have the property:\n" + text[-3000:])
        run.count(text)
        run.cov["exhaustive"] = True
        n = 1500 if run.quick else 20000
        big, text, ok = tlc("WsdlModelGen", sim=dict(num=n, depth=40, seed=run.seed), heap="2g", timeout=3000)
        if not ok:
            raise ToolError("authoring failed:\n" + text[-2000:])
        run.count(text)
        run.add("small_definitions", len(small))
        run.add("authored_definitions", len(big))
        defs = small + big + small
        texts = [model_text(d, None if i < len(small) else run.seed * 100000 + i) for i, d in enumerate(defs)]
    obs = harness([dict(cmd="wsdlmodel", text=t) for t in texts])
    log = os.path.join(run.dir, "log.ndjson")
    write_ndjson(log, [{"def": d, "obs": o} for d, o in zip(defs, obs)])
    recs, text, ok = tlc("WsdlModelJudge", env={"OBS": log}, workers=8, heap="8g", timeout=3000)
    if not ok or len({r["line"] for r in recs}) != len(defs):
        raise ToolError("judging failed:\n" + text[-2000:])
    run.count(text)
    run.add("traces_validated_against_impl", len(defs))
    verdict = {r["line"] - 1: r for r in recs}
    for i in range(len(defs)):
        if not verdict[i]["ok"]:
            run.violation({"property": "P23", "def": defs[i], "text": texts[i], "verdict": verdict[i], "obs": obs[i]})
    run.add("refused", sum(o["st"] == "panic" for o in obs))
    run.sample(dict(text=texts[-1], obs=obs[-1]))
