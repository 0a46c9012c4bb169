"""Known findings: each is probed with the input that shows it. An entry suppresses nothing."""
import json, os, re
from lib import ROOT, harness

FILE = os.path.join(ROOT, "known_findings.txt")


def entries():
    out = []
    if os.path.exists(FILE):
        for line in open(FILE):
            if line.startswith("finding: "):
                out.append(json.loads(line[len("finding: "):]))
    return out


def compiled(run, es):
    """What the drivers of compiled code answer (entries with "run": text, fn, ty, xs)."""
    from e2e import Crate
    code = [o.get("code", "") for o in harness([dict(cmd="xsd", text=e["run"]["text"], raw=True) for e in es])]
    crate = Crate(run, run.prop + "k", bins=4)
    bad = crate.build([(c, {"k%d" % i: (e["run"]["fn"], e["run"]["ty"])}) for i, (c, e) in enumerate(zip(code, es))])
    ask = [i for i in range(len(es)) if i not in bad]
    got = dict(zip(ask, crate.run([dict(p="k%d" % i, xs=es[i]["run"]["xs"]) for i in ask], timeout=5)))
    crate.close()
    return ["does not compile: " + bad[i] if i in bad else json.dumps(got[i]) for i in range(len(es))]


def probe(run):
    mine = [e for e in entries() if e["property"] == run.prop]
    live = [e for e in mine if "run" in e]
    texts = dict(zip([e["key"] for e in live], compiled(run, live) if live else []))
    for e in mine:
        if "run" in e:
            text = texts[e["key"]]
        else:
            o = harness([dict(e["cmd"], raw=True)])[0]
            text = json.dumps(o) if "code" not in o else o["st"] + "\n" + o["code"]
        if e.get("want") and re.search(e["want"], text, re.S):
            continue                      # behaves as it should: nothing to report
        if e.get("unwanted") and not re.search(e["unwanted"], text, re.S):
            continue
        run.known.append("%s: %s" % (e["key"], e["what"]))
