"""P09: documents through compiled generated code and back, against RoundTrip.tla."""
import os, random
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape
from lib import *
from render import render
from e2e import Crate
import c_xsd

FAM = ["card", "member", "inherit", "simple", "type", "choice", "nest", "name"]


class Writer:
    """A tree as XML text; the style varies what must not matter."""

    def __init__(self, tns, seed):
        self.tns = tns
        self.r = random.Random(seed) if seed is not None else None
        self.p = "p:" if self.r is None else self.r.choice(["p:", "", "tns:", "x-1:"])

    def gap(self):
        if self.r is None:
            return ""
        return self.r.choice(["", "", "\n  ", " ", "<!-- <p:a>no</p:a> -->", "\t\n", "<?pi x?>"])

    def el(self, t, top=False):
        # a prefix for the namespace, or the default namespace
        n = (self.p if self.tns else "") + t["n"]
        attrs = [(a["n"], a["v"]) for a in t["a"]]
        if top and self.tns:
            attrs.append(("xmlns" + (":" + self.p[:-1] if self.p else ""), self.tns))
        if self.r is not None:
            self.r.shuffle(attrs)
        head = "<" + n
        for k, v in attrs:
            q = '"' if self.r is None else self.r.choice("\"'")
            head += (" " if self.r is None else self.r.choice([" ", "  ", "\n "])) + k + "=" + q + escape(v, {q: "&quot;" if q == '"' else "&apos;"}) + q
        if t["k"]:
            return head + ">" + "".join(self.gap() + self.el(k) for k in t["k"]) + self.gap() + "</" + n + ">"
        if t["t"] == "":
            return head + ("/>" if self.r is None or self.r.random() < 0.5 else "></" + n + ">")
        room = self.r.choice(["", "", " ", "\n  "]) if self.r is not None and t.get("w") else ""
        return head + ">" + room + self.text(t["t"]) + room + "</" + n + ">"

    def text(self, s):
        if self.r is None:
            return escape(s)
        return "".join("&#%d;" % ord(c) if self.r.random() < 0.03 else escape(c) for c in s)

    def doc(self, t):
        head = "" if self.r is None else self.r.choice(["", '<?xml version="1.0" encoding="UTF-8"?>', '<?xml version="1.0"?>\n'])
        return head + self.el(t, True)


def tree(e):
    def split(n):
        return n[1:].split("}") if n[0] == "{" else ("", n)
    ns, n = split(e.tag)
    kids = [tree(k) for k in e]
    text = (e.text or "") + "".join(k.tail or "" for k in e)
    if kids and not text.strip():
        text = ""
    return dict(n=n, ns=ns, a=[dict(n=split(k)[1], ns=split(k)[0], v=v) for k, v in e.attrib.items()], k=kids, t=text)


EMPTY = dict(n="", ns="", a=[], k=[], t="")


def author(run, num, n):
    from concurrent.futures import ThreadPoolExecutor
    docs = []

    def sim(i):
        return tlc("RtAuthor", sim=dict(num=num, depth=80, seed=run.seed * 1000 + i), heap="2g", timeout=3000, name="rtauthor%d" % i)
    with ThreadPoolExecutor(n) as ex:
        for recs, text, ok in ex.map(sim, range(n)):
            if not ok:
                raise ToolError("authoring failed:\n" + text[-2000:])
            run.count(text)
            docs += recs
    return docs


def write(run, docs, cfg):
    path = os.path.join(run.dir, "docs.ndjson")
    write_ndjson(path, docs)
    recs, text, ok = tlc("RtWrite", cfg=cfg, env={"DOCS": path}, workers=8, heap="8g", timeout=3000, extra=["-seed", str(run.seed)])
    if not ok:
        raise ToolError("the specification does not have the property:\n" + text[-3000:])
    run.count(text)
    return path, recs


def families(run, n):
    rnd = random.Random(run.seed)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        sets = list(ex.map(lambda f: c_xsd.family_of(run, f, 2), FAM))
    return [rnd.sample(sorted(recs, key=json.dumps), min(n, len(recs))) for recs in sets]


def p09(run, replay=None):
    q = run.quick
    if replay:
        docs = [replay["doc"]]
        path, roots = write(run, docs, "RtWrite.cfg")
        roots = [dict(r, trees=[replay["in"]]) for r in roots if r["root"] == replay["root"]]
    else:
        docs = author(run, 40 if q else 150, 2 if q else 6)
        run.add("authored_documents", len(docs))
        for fam in families(run, 120 if q else 700):
            docs += fam
        path, roots = write(run, docs, "RtWrite.cfg" if q else "RtWriteDeep.cfg")
        run.log("documents written")
        # of the many documents of the families some will do
        keep, per = set(), 0
        by = {}
        for r in roots:
            by.setdefault(r["line"], []).append(r)
        lines = sorted(by)
        rnd = random.Random(run.seed)
        rnd.shuffle(lines)
        cap = 160 if q else 1500
        keep = set(sorted(lines, key=lambda l: l > run.cov["authored_documents"])[:cap])
        roots = [r for r in roots if r["line"] in keep]
    roots.sort(key=lambda r: (r["line"], r["root"]))
    use = sorted({r["line"] for r in roots})
    obs = dict(zip(use, harness([dict(cmd="xsd", text=render(docs[l - 1]), raw=True) for l in use])))
    modules, number = [], {}
    for l in use:
        number[l] = len(modules)
        modules.append((obs[l].get("code", ""), {"d%dr%d" % (l, r["root"]): ("trip", r["ident"]) for r in roots if r["line"] == l}))
    crate = Crate(run, "p09")
    run.log("%d schemas generated" % len(use))
    bad = crate.build(modules)
    run.log("compiled")
    lost = {l for l in use if number[l] in bad or obs[l]["st"] != "ok"}
    for l in sorted(lost):
        run.violation(dict(property=run.prop, doc=docs[l - 1], text=render(docs[l - 1]), root=0,
                           why="generator: " + obs[l]["st"] if obs[l]["st"] != "ok" else "does not compile: " + bad[number[l]]))
    roots = [r for r in roots if r["line"] not in lost]
    rnd = random.Random(run.seed * 7)
    cmds, log = [], []
    for r in roots:
        tns = docs[r["line"] - 1]["tns"]
        xs = [Writer(tns, None if i % 3 == 0 else rnd.randrange(10 ** 9)).doc(t) for i, t in enumerate(r["trees"])]
        cmds.append([dict(p="d%dr%d" % (r["line"], r["root"]), xs=[x]) for x in xs])
    answers = iter(crate.run([c for cs in cmds for c in cs]))
    for r, cs in zip(roots, cmds):
        got = [next(answers) for _ in cs]
        res = [(a.get("res") or [dict(st=a["st"])])[0] for a in got]
        c = dict(xs=[c["xs"][0] for c in cs])
        for t, x, o in zip(r["trees"], c["xs"], res):
            st, out = o["st"], EMPTY
            if st == "ok":
                try:
                    out = tree(ET.fromstring(o["out"]))
                except ET.ParseError:
                    st = "output is not XML"
            rec = dict(doc=r["line"], root=r["root"], st=st, eq=o.get("eq", False), debug=o.get("debug", ""), out=out)
            rec["in"] = t
            log.append((rec, x, o))
    run.log("%d documents read and written" % len(log))
    obsf = os.path.join(run.dir, "log.ndjson")
    write_ndjson(obsf, [x[0] for x in log])
    recs, text, ok = tlc("RtJudge", env={"DOCS": path, "OBS": obsf}, workers=8, heap="8g", timeout=3000)
    if not ok or {r["line"] for r in recs} != set(range(1, len(log) + 1)):
        raise ToolError("judging failed:\n" + text[-3000:])
    run.count(text)
    run.add("schemas_compiled", len(use))
    run.add("types_as_roots", len(roots))
    run.add("traces_validated_against_impl", len(log))
    for v in sorted(recs, key=lambda v: v["line"]):
        if not v["ok"]:
            rec, x, o = log[v["line"] - 1]
            run.violation({"property": run.prop, "why": v["why"], "doc": docs[rec["doc"] - 1], "root": rec["root"], "in": rec["in"],
                           "schema": render(docs[rec["doc"] - 1]), "document": x, "observed": o})
    for rec, x, o in log[:: max(1, len(log) // 3)]:
        run.sample(dict(schema=render(docs[rec["doc"] - 1]), document=x, observed=o))
    crate.close()
