"""XML text of a schema as the abstract document of spec/Xsd.tla: the inverse of render.py.

Purely syntactic, for schemas found elsewhere (the repository's own inputs).  Returns None
for a construct the abstract syntax does not have.
"""
import xml.etree.ElementTree as ET
from io import BytesIO

XS = "{http://www.w3.org/2001/XMLSchema}"


class Unknown(Exception):
    pass


def kids(n, *names):
    return [c for c in n if isinstance(c.tag, str) and c.tag.startswith(XS) and (not names or c.tag[len(XS):] in names)]


def local(n):
    return n.tag[len(XS):] if isinstance(n.tag, str) and n.tag.startswith(XS) else "?"


NONE = dict(k="none")


def ty(n):
    if n.get("type") is not None:
        return dict(k="q", q=n.get("type"))
    for c in kids(n):
        if local(c) == "complexType":
            return dict(k="ct", ct=ct(c))
        if local(c) == "simpleType":
            return dict(k="st", st=st(c))
    return NONE


def part(n):
    k = local(n)
    if k == "any":
        return dict(k="any")
    if k == "choice":
        if n.get("minOccurs") or n.get("maxOccurs"):
            raise Unknown("occurrence of choice")
        return dict(k="choice", parts=parts(n))
    if k != "element":
        raise Unknown(k)
    mm = dict(min=n.get("minOccurs", ""), max=n.get("maxOccurs", ""))
    if n.get("ref") is not None:
        return dict(k="ref", q=n.get("ref"), **mm)
    t = ty(n)
    if t == NONE:
        raise Unknown("element without type")
    return dict(k="el", name=n.get("name"), ty=t, **mm)


def parts(n):
    if n.get("minOccurs") or n.get("maxOccurs"):
        raise Unknown("occurrence of " + local(n))
    return [part(c) for c in kids(n) if local(c) != "annotation"]


def attrs(n):
    res = []
    for c in kids(n):
        k = local(c)
        if k == "anyAttribute":
            res.append(dict(k="any"))
        elif k == "attributeGroup":
            res.append(dict(k="ag", q=c.get("ref")))
        elif k == "attribute":
            if c.get("ref") is not None:
                res.append(dict(k="ref", q=c.get("ref"), use=c.get("use", "")))
            else:
                res.append(dict(k="at", name=c.get("name"), ty=ty(c), use=c.get("use", "")))
    return res


MODELS = {"sequence": "seq", "all": "all", "choice": "choice"}


def ct(n):
    for c in kids(n, "group"):
        raise Unknown("group")
    for c in kids(n, "complexContent", "simpleContent"):
        for d in kids(c, "extension", "restriction"):
            m = {"complexContentextension": "ext", "complexContentrestriction": "rst",
                 "simpleContentextension": "sext"}.get(local(c) + local(d))
            if not m or kids(d, "group"):
                raise Unknown(local(c) + " " + local(d))
            inner = kids(d, *MODELS)
            return dict(m=m, inner=MODELS[local(inner[0])] if inner else "none", base=d.get("base"),
                        parts=parts(inner[0]) if inner else [], attrs=attrs(d))
    for c in kids(n, *MODELS):
        return dict(m=MODELS[local(c)], inner="none", base="", parts=parts(c), attrs=attrs(n))
    return dict(m="empty", inner="none", base="", parts=[], attrs=attrs(n))


def st(n):
    for c in kids(n, "restriction", "list", "union"):
        k = local(c)
        if k == "restriction":
            if c.get("base") is None:
                raise Unknown("restriction without base")
            return dict(k="rst", base=c.get("base"),
                        facets=[dict(f=local(f), v=f.get("value")) for f in kids(c) if f.get("value") is not None])
        if k == "list":
            if c.get("itemType") is not None:
                return dict(k="list", ty=dict(k="q", q=c.get("itemType")))
            return dict(k="list", ty=dict(k="st", st=st(kids(c, "simpleType")[0])))
        return dict(k="union", qs=(c.get("memberTypes") or "").split(), sts=[st(s) for s in kids(c, "simpleType")])
    raise Unknown("simpleType")


def top(n):
    k = local(n)
    if k == "complexType":
        return dict(k="ct", name=n.get("name"), ct=ct(n))
    if k == "simpleType":
        return dict(k="st", name=n.get("name"), st=st(n))
    if k in ("element", "attribute"):
        return dict(k="el" if k == "element" else "at", name=n.get("name"), ty=ty(n))
    if k == "attributeGroup":
        return dict(k="ag", name=n.get("name"), attrs=attrs(n))
    if k == "import":
        return dict(k="import", name="", ns=n.get("namespace", ""), loc=n.get("schemaLocation", ""))
    if k == "include":
        return dict(k="include", name="", loc=n.get("schemaLocation", ""))
    raise Unknown(k)


def schema_doc(root, ns):
    """(document, components left out) or None; ns: the namespaces in scope"""
    tns = root.get("targetNamespace", "")
    xps = sorted(p for p, u in ns.items() if u == XS[1:-1])
    tps = [p for p, u in ns.items() if u == tns] if tns else [""]
    if not xps or not tps:
        return None
    tops, left = [], []
    for c in kids(root):
        if local(c) == "annotation":
            continue
        try:
            tops.append(top(c))
        except Unknown as e:
            left.append((c.get("name"), str(e)))
    return dict(xp=([p for p in xps if p] or xps)[0], tp=tps[0], tns=tns, tops=tops), left


def scan(text, want):
    """root, namespaces declared on it, and [(element, namespaces in scope)] for elements called want"""
    ns, scopes, root, found = [], [], None, []
    for ev, x in ET.iterparse(BytesIO(text.encode()), events=("start", "end", "start-ns")):
        if ev == "start-ns":
            ns.append(x)
        elif ev == "start":
            scopes.append(dict(scopes[-1] if scopes else {}, **dict(ns)))
            ns = []
            if root is None:
                root = (x, scopes[-1])
            if x.tag == want:
                found.append((x, scopes[-1]))
        else:
            scopes.pop()
    return root, found


def unrender(text):
    """(document, components left out) or None"""
    (root, ns), found = scan(text, XS + "schema")
    return schema_doc(root, ns) if root.tag == XS + "schema" else None


W = "{http://schemas.xmlsoap.org/wsdl/}"


def unrender_wsdl(text):
    """the abstract document of spec/Wsdl.tla, or None"""
    (root, ns), found = scan(text, XS + "schema")
    if root.tag != W + "definitions":
        return None
    tns = root.get("targetNamespace", "")
    tps = [p for p, u in ns.items() if u == tns]
    if not tps:
        return None
    schemas = []
    for x, scope in found:
        r = schema_doc(x, scope)
        if not r or r[1]:
            return None
        schemas.append(r[0])
    msgs = []
    for m in root.findall(W + "message"):
        msgs.append(dict(name=m.get("name"), parts=[dict(name=x.get("name"), by="element" if x.get("element") else "type", q=x.get("element") or x.get("type"))
                                                    for x in m.findall(W + "part")]))
    pts = []
    for pt in root.findall(W + "portType"):
        ops = []
        for o in pt.findall(W + "operation"):
            i, out = o.find(W + "input"), o.find(W + "output")
            if i is None:
                return None
            ops.append(dict(name=o.get("name"), kind="ow" if out is None else "rr", inp=i.get("message"), out="" if out is None else out.get("message"),
                            faults=[f.get("message") for f in o.findall(W + "fault")], doc=o.findtext(W + "documentation") or ""))
        pts.append(dict(name=pt.get("name"), ops=ops))
    return dict(tp=tps[0], tns=tns, schemas=schemas, msgs=msgs, pts=pts)


def wsdl_corpus(root):
    """WSDL documents of the repository: [(path, text, document)]"""
    import glob
    import os
    found = []
    for f in sorted(glob.glob(os.path.join(root, "input", "wsdl", "*")) + glob.glob(os.path.join(root, "wsdl-parser", "tests", "**", "*wsdl*"), recursive=True)):
        try:
            with open(f, encoding="utf-8") as h:
                text = h.read()
            r = unrender_wsdl(text)
        except (OSError, ValueError, ET.ParseError, Unknown, AttributeError, IndexError, TypeError):
            continue
        if r:
            found.append((os.path.relpath(f, root), text, r))
    return found


def corpus(root):
    """Schemas of the repository (also those inside its WSDLs): [(path, text, document)]; only those without
    constructs the abstract syntax does not have."""
    import glob
    import os
    found = []
    for f in sorted(glob.glob(os.path.join(root, "input", "*", "*.xsd")) + glob.glob(os.path.join(root, "xsd-parser", "tests", "*", "*.xsd"))):
        try:
            with open(f, encoding="utf-8") as h:
                text = h.read()
            r = unrender(text)
        except (OSError, ValueError, ET.ParseError, Unknown, AttributeError, IndexError, TypeError):
            continue
        if r:
            found.append((os.path.relpath(f, root), text, r[0], not r[1]))
    return found


def names_used(v):
    """names the components of v refer to (without prefix)"""
    res = set()
    if isinstance(v, dict):
        for k, w in v.items():
            if k in ("q", "base") and isinstance(w, str):
                res.add(w.split(":")[-1])
            else:
                res |= names_used(w)
    elif isinstance(v, list):
        for w in v:
            res |= names_used(w)
    return res


def extract(doc, rnd):
    """some components of a document, with the bases and groups they need"""
    n = len(doc["tops"])
    if not n:
        return None
    i = rnd.randrange(n)
    keep = set(range(i, min(n, i + rnd.randrange(1, 5))))
    names = {}
    for j, t in enumerate(doc["tops"]):
        names.setdefault(t.get("name"), []).append(j)
    for j in sorted(keep):
        for x in sorted(names_used(doc["tops"][j])):
            if rnd.random() < 0.5:
                keep |= set(names.get(x, []))
    grown = True
    while grown:
        grown = False
        for j in sorted(keep):
            t = doc["tops"][j]
            c = t.get("ct") or (t.get("ty") or {}).get("ct") or {}
            need = {c.get("base", "").split(":")[-1]} | {a["q"].split(":")[-1] for a in (c.get("attrs") or t.get("attrs") or []) if a["k"] == "ag"}
            for x in need - {""}:
                for k in names.get(x, []):
                    if k not in keep:
                        keep.add(k)
                        grown = True
    if len(keep) > 9:
        return None
    return dict(doc, tops=[doc["tops"][j] for j in sorted(keep)])


def wsdl_extract(w, rnd):
    """some operations of a WSDL document, with their messages and some of its types"""
    ops = [(p["name"], o) for p in w["pts"] for o in p["ops"]]
    if not ops:
        return None
    i = rnd.randrange(len(ops))
    some = ops[i:i + rnd.randrange(1, 5)]
    pts = []
    for n, o in some:
        if not pts or pts[-1]["name"] != n:
            pts.append(dict(name=n, ops=[]))
        pts[-1]["ops"].append(o)
    used = {q.split(":")[-1] for _, o in some for q in [o["inp"], o["out"]] + o["faults"]}
    schemas = []
    for d in w["schemas"]:
        e = extract(d, rnd)
        if not e:
            return None
        schemas.append(e)
    msgs = [m for m in w["msgs"] if m["name"] in used]
    return dict(w, schemas=schemas, msgs=msgs, pts=pts) if msgs else None
