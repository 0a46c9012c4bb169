"""Abstract schema documents (see spec/Xsd.tla) as XML text.

Purely syntactic.  `style` varies what must not matter: layout, comments, annotations,
processing instructions, the order of XML attributes, quotes.
"""
import json
import random
from xml.sax.saxutils import escape

XS = "http://www.w3.org/2001/XMLSchema"


class Style:
    def __init__(self, seed=None):
        self.rnd = random.Random(seed) if seed is not None else None

    def chance(self, p):
        return self.rnd is not None and self.rnd.random() < p


DOCS = [
    "Some text",
    "  several\n   lines of text\n\n\n   here, and one that is long enough to be wrapped by a generator at eighty columns or so  ",
    "pub struct Injected { x: i32 }",
    "a */ b // c \" ' \\ {} #[derive(Debug)] \t x",
    "x\r\ny\rz",
    "ünïcödé ❤ текст",
    "]]&gt; &lt;tag&gt; &amp;amp;",
    "\n",
    "use std::fs; \nfn main() {}\n pub type A = B;",
    "/* not closed",
    "#![allow(x)]\n/// doc \n//! inner",
]


WORDS = ["a", "the", "type", "struct", "pub", "{", "}", "//", "*/", "/*", "\"", "'", "\\", "#[x]", "é", "日本語", "❤",
         "x" * 70, "ü" * 45, "y" * 200, "mod", "fn", "()", ";", "\u2028", "\u00a0", "&#13;", "&#10;", "&#9;", "]]&gt;", "!"]


def random_text(rnd):
    """escaped already"""
    out = ""
    for _ in range(rnd.randrange(1, 40)):
        w = rnd.choice(WORDS)
        out += (w if w.startswith("&#") or w.startswith("]]") else escape(w)) + rnd.choice([" ", " ", " ", "\n", "\n\n", "", "\t", "   "])
    return out


CONSTRAINTS = {"unique", "key"}


class Renderer:
    def __init__(self, doc, style=None, notes=None, asides=True):
        self.d = doc
        self.asides = asides
        self.notes = notes and random.Random(notes)     # documentation of the document itself, and no other
        self.s = style or Style()
        self.out = []

    def x(self, n):
        return (self.d["xp"] + ":" + n) if self.d["xp"] else n

    def attrs(self, pairs):
        pairs = [(k, v) for k, v in pairs if v is not None]
        if self.s.rnd is not None:
            self.s.rnd.shuffle(pairs)
        res = ""
        for k, v in pairs:
            v = escape(v, {"\"": "&quot;", "'": "&apos;", "\n": "&#10;", "\t": "&#9;"})
            q = "'" if self.s.chance(0.3) else '"'
            sep = "\n      " if self.s.chance(0.1) else " "
            res += sep + k + "=" + q + v + q
        return res

    def nl(self, depth):
        if self.s.rnd is None:
            return "\n" + "  " * depth
        return self.s.rnd.choice(["", "\n", "\n\n\n", " \t", "\n" + "  " * depth, "\r\n"])

    def noise(self):
        r = ""
        if self.s.chance(0.15):
            r += "<!-- comment <xs:element name=\"no\"/> -->"
        if self.s.chance(0.05):
            r += "<?pi some=\"thing\"?>"
        return r

    def documented(self, depth, words):
        if not words:
            return ""
        r = self.notes
        lines = [[]]
        for w in words:
            lines[-1].append(w)
            if r.random() < 0.15:
                lines.append([])
        joined = []
        for line in lines:
            body = r.choice([" ", " ", "  ", "\t"]).join(line)
            if joined and len(body) <= 1:      # a line of a single character would be left out
                joined[-1] += " " + body
            else:
                joined.append(body)
        text = "".join(body + r.choice(["\n", "\n", "\n  ", " \n\t", "\n\n", "\n  \n "]) for body in joined[:-1]) + joined[-1]
        if r.random() < 0.5:
            text = r.choice(["\n", "\n    ", " "]) + text + r.choice(["", "\n  ", " "])
        a, n = self.x("annotation"), self.x("documentation")
        lang = r.choice(["", "", " xml:lang='en'", " source='x'"])
        x = self.x("appinfo")
        infos = ["<%s>no words</%s>" % (x, x), "<%s/>" % x, "<%s><%s>no words</%s></%s>" % (x, n, n, x),
                 "<%s source='urn:no'><documentation xmlns='urn:no'>no words</documentation>no words</%s>" % (x, x)]
        info = r.choice(infos) if r.random() < 0.15 else ""
        more = r.choice(infos) if r.random() < 0.15 else ""
        pad = self.nl(depth) if r.random() < 0.8 else ""
        body = "<![CDATA[%s]]>" % text if r.random() < 0.1 and "]]>" not in text else escape(text)
        return pad + "<%s>%s%s<%s%s>%s</%s>%s%s</%s>" % (a, info, pad, n, lang, body, n, more, pad, a)

    def annotation(self, depth):
        if not self.s.chance(0.3):
            return ""
        a = self.x("annotation")
        if self.s.chance(0.08):
            return self.nl(depth) + "<%s/>" % a
        body = ""
        if self.s.chance(0.2):
            body += "<%s source='x'><foo/></%s>" % (self.x("appinfo"), self.x("appinfo"))
        if self.s.chance(0.9):
            n = self.x("documentation")
            t = self.s.rnd.choice(DOCS)
            if "&" not in t:
                t = escape(t)
            if self.s.chance(0.4):
                t = random_text(self.s.rnd)
            if self.s.chance(0.1):
                t = "<b>" + t + "</b> tail"
            body += "<%s xml:lang='en'>%s</%s>" % (n, t, n) if self.s.chance(0.3) else "<%s>%s</%s>" % (n, t, n)
        return self.nl(depth) + "<%s>%s</%s>" % (a, body, a)

    def constraint(self, depth, a):
        x = self.x
        return self.nl(depth) + "<%s name=%s><%s xpath='.'/><%s xpath='@id'/></%s>" % (
            x(a["n"]), '"%s"' % a["v"], x("selector"), x("field"), x(a["n"]))

    def el(self, depth, name, pairs, children=(), ann=True, doc=(), of=None):
        """children: list of callables depth -> text; of: the component, for its asides"""
        n = self.x(name)
        aside = of.get("aside", []) if of and self.asides else []
        pairs = list(pairs) + [(a["n"], a["v"]) for a in aside if a["n"] not in CONSTRAINTS]
        children = list(children) + [(lambda a: lambda d: self.constraint(d, a))(a) for a in aside if a["n"] in CONSTRAINTS]
        head = self.nl(depth) + self.noise() + "<" + n + self.attrs(pairs)
        inner = (self.documented(depth + 1, doc) if self.notes else self.annotation(depth + 1) if ann else "") + "".join(c(depth + 1) for c in children)
        if not inner:
            return head + ("/>" if not self.s.chance(0.2) else "></" + n + ">")
        return head + ">" + inner + self.noise() + self.nl(depth) + "</" + n + ">"

    # ------------------------------------------------------------------
    def ty(self, t):
        """(type attribute, children)"""
        if t["k"] == "q":
            return t["q"], []
        if t["k"] == "ct":
            return None, [lambda d: self.ct(d, None, t["ct"])]
        if t["k"] == "st":
            return None, [lambda d: self.st(d, None, t["st"])]
        return None, []

    def part(self, p):
        def f(d):
            if p["k"] == "any":
                return self.el(d, "any", [("namespace", "##any"), ("processContents", "lax"),
                                          ("minOccurs", "0"), ("maxOccurs", "unbounded")], of=p)
            if p["k"] == "choice":
                return self.el(d, "choice", [], [self.part(q) for q in p["parts"]])
            mm = [("minOccurs", p["min"] or None), ("maxOccurs", p["max"] or None)]
            if p["k"] == "ref":
                return self.el(d, "element", [("ref", p["q"])] + mm, doc=p.get("doc"), of=p)
            q, ch = self.ty(p["ty"])
            return self.el(d, "element", [("name", p["name"]), ("type", q)] + mm, ch, doc=p.get("doc"), of=p)
        return f

    def attr(self, a):
        def f(d):
            if a["k"] == "ag":
                return self.el(d, "attributeGroup", [("ref", a["q"])], of=a)
            if a["k"] == "any":
                return self.el(d, "anyAttribute", [("namespace", "##any"), ("processContents", "lax")], of=a)
            u = ("use", a["use"] or None)
            if a["k"] == "ref":
                return self.el(d, "attribute", [("ref", a["q"]), u], doc=a.get("doc"), of=a)
            q, ch = self.ty(a["ty"])
            return self.el(d, "attribute", [("name", a["name"]), ("type", q), u], ch, doc=a.get("doc"), of=a)
        return f

    def ct(self, d, name, ct):
        attrs = [self.attr(a) for a in ct["attrs"]]
        parts = [self.part(p) for p in ct["parts"]]
        tag = {"seq": "sequence", "all": "all", "choice": "choice"}
        if ct["m"] == "empty":
            ch = attrs
        elif ct["m"] in tag:
            ch = [lambda dd: self.el(dd, tag[ct["m"]], [], parts)] + attrs
        else:
            inner = [] if ct["inner"] == "none" else [lambda dd: self.el(dd, tag[ct["inner"]], [], parts)]
            kind = {"ext": ("complexContent", "extension"), "rst": ("complexContent", "restriction"),
                    "sext": ("simpleContent", "extension")}[ct["m"]]
            ch = [lambda dd: self.el(dd, kind[0], [], [
                lambda d3: self.el(d3, kind[1], [("base", ct["base"])], inner + attrs, doc=ct.get("xdoc"))])]
        return self.el(d, "complexType", [("name", name)], ch, doc=ct.get("doc"), of=ct)

    def st(self, d, name, st):
        if st["k"] == "rst":
            ch = [lambda dd: self.el(dd, "restriction", [("base", st["base"])], [
                (lambda f: lambda d3: self.el(d3, f["f"], [("value", f["v"])], doc=f.get("doc"), of=f))(f) for f in st["facets"]])]
        elif st["k"] == "list":
            q, inner = self.ty(st["ty"])
            ch = [lambda dd: self.el(dd, "list", [("itemType", q)], inner)]
        else:
            qs = st["qs"]
            inner = [(lambda s: lambda d3: self.st(d3, None, s))(s) for s in st["sts"]]
            ch = [lambda dd: self.el(dd, "union", [("memberTypes", " ".join(qs) if qs else None)], inner)]
        return self.el(d, "simpleType", [("name", name)], ch, doc=st.get("doc"), of=st)

    def top(self, t):
        def f(d):
            k = t["k"]
            if k == "ct":
                return self.ct(d, t["name"], t["ct"])
            if k == "st":
                return self.st(d, t["name"], t["st"])
            if k in ("el", "at"):
                q, ch = self.ty(t["ty"])
                return self.el(d, "element" if k == "el" else "attribute", [("name", t["name"]), ("type", q)], ch, doc=t.get("doc"), of=t)
            if k == "ag":
                return self.el(d, "attributeGroup", [("name", t["name"])], [self.attr(a) for a in t["attrs"]])
            if k == "import":
                return self.el(d, "import", [("namespace", t["ns"]), ("schemaLocation", t["loc"])])
            return self.el(d, "include", [("schemaLocation", t["loc"])])
        return f

    def schema(self, depth=0):
        d = self.d
        ns = [("xmlns" + (":" + d["xp"] if d["xp"] else ""), XS)]
        if d["tns"]:
            ns.append(("xmlns" + (":" + d["tp"] if d["tp"] else ""), d["tns"]))
            ns.append(("targetNamespace", d["tns"]))
        for o in sorted(self.foreign()):
            ns.append(("xmlns:" + o, "urn:other:" + o))
        if self.asides and '"n": "ann:' in json.dumps(d):
            ns.append(("xmlns:ann", "urn:annotations"))
        ns.append(("elementFormDefault", "qualified"))
        return self.el(depth, "schema", ns, [self.top(t) for t in d["tops"]])

    def foreign(self):
        """prefixes used in the document but not bound by xp / tp"""
        found = set()

        def q(s):
            if ":" in s:
                p = s.split(":")[0]
                if p not in (self.d["xp"], "xml") and not (self.d["tns"] and p == self.d["tp"]):
                    found.add(p)

        def walk(v):
            if isinstance(v, dict):
                for k, w in v.items():
                    if k in ("q", "base") and isinstance(w, str):
                        q(w)
                    elif k == "qs":
                        for s in w:
                            q(s)
                    else:
                        walk(w)
            elif isinstance(v, list):
                for w in v:
                    walk(w)
        walk(self.d["tops"])
        return found

    def outside(self, n=3):
        """what may be before and after the root element"""
        if self.s.rnd is None:
            return ""
        r = self.s.rnd
        return "".join(r.choice(["\n", " \t", "<!-- <xs:schema/> a comment -->", "<?pi some=\"thing\"?>", "<?xml-stylesheet href='x.xsl' type=\"text/xsl\"?>",
                                 "<!---->", "\r\n\r\n", "<?schema?>", "<!-- xs:complexType name='No' -->"])
                       for _ in range(r.randrange(n + 1)))

    def text(self):
        head = '<?xml version="1.0" encoding="UTF-8"?>' if self.s.rnd is None or self.s.chance(0.7) else ""
        if self.s.rnd is None:
            return (head + self.schema()).strip() + "\n"
        body = self.outside() + self.schema() + self.outside()
        return (head + body) if head else body.lstrip()


def render(doc, seed=None, notes=None, asides=True):
    return Renderer(doc, Style(seed), notes, asides).text()
