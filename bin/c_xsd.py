"""Checks on conversion of schema documents: documents come from the specification (complete
families, and behaviours of the authoring machine), the real generator converts them, and the
specification judges the records."""
import json, os
from lib import *
from render import render
import unrender


REPO = "/repo"
FAMILIES = ["card", "member", "inherit", "simple", "type", "name", "choice", "nest", "aside"]


def family_of(run, name, workers):
    recs, text, ok = tlc("XsdScope", cfg="XsdScope.cfg" if run.quick else "XsdScopeDeep.cfg",
                         env={"FAMILY": name}, workers=workers, heap="4g", timeout=3000, name="scope-" + name)
    if not ok:
        raise ToolError("the specification does not have the property:\n" + text[-3000:])
    run.count(text)
    return recs


def sampled(run, but, n):
    """n documents of every family but one."""
    import random
    from concurrent.futures import ThreadPoolExecutor
    rnd = random.Random(run.seed)
    names = [f for f in FAMILIES if f != but]
    with ThreadPoolExecutor(4) as ex:
        sets = list(ex.map(lambda f: family_of(run, f, 2), names))
    return [d for recs in sets for d in rnd.sample(sorted(recs, key=json.dumps), min(n, len(recs)))]


def documents(run, family, num, size=None):
    """Documents of the specification: (documents, how many are of the complete family)."""
    docs = []
    if family:
        docs += family_of(run, family, 6)
    fam = len(docs)
    if fam:
        run.add("family_documents", fam)
    if num:
        from concurrent.futures import ThreadPoolExecutor
        n = 1 if run.quick else 4

        def sim(i):
            return tlc("XsdAuthor", sim=dict(num=num, depth=60, seed=run.seed * 1000 + i), heap="2g",
                       timeout=3000, name="author%d" % i)
        with ThreadPoolExecutor(n) as ex:
            for recs, text, ok in ex.map(sim, range(n)):
                if not ok:
                    raise ToolError("authoring failed:\n" + text[-2000:])
                run.count(text)
                docs += recs
    return docs, fam


def corpus(run):
    """The schemas of the repository: documents as far as the specification has a meaning for them."""
    full = [(f, t, d) for f, t, d, complete in unrender.corpus(REPO) if complete]
    run.add("schemas_of_the_repository", len(full))
    return full


def edited(run, full, num, rough=False):
    """Documents of the editing machine, which starts from extracts of the repository's schemas."""
    import random
    rnd = random.Random(run.seed)
    docs = []
    if not full:
        return docs
    for _ in range(2000):
        e = unrender.extract(rnd.choice(full)[2], rnd)
        if e:
            docs.append(e)
        if len(docs) == 300:
            break
    src = os.path.join(run.dir, "corpus.ndjson")
    write_ndjson(src, docs)
    recs, text, ok = tlc("XsdEdit", cfg="XsdRough.cfg" if rough else "XsdEdit.cfg", env={"CORPUS": src}, sim=dict(num=num, depth=60, seed=run.seed), heap="2g", timeout=3000)
    if not ok:
        raise ToolError("editing failed:\n" + text[-2000:])
    run.count(text)
    run.add("rough_documents" if rough else "edited_documents", len(recs))
    return recs


def judge(run, lines, view, module="XsdJudge"):
    """The specification's verdict on every record."""
    log = os.path.join(run.dir, "log-%s.ndjson" % view)
    write_ndjson(log, lines)
    recs, text, ok = tlc(module, env={"OBS": log, "PROP": view}, workers=8, heap="8g", timeout=3000)
    if not ok or len({r["line"] for r in recs}) != len(lines):
        raise ToolError("judging failed:\n" + text[-2000:])
    run.count(text)
    run.add("traces_validated_against_impl", len(lines))
    return {r["line"] - 1: r for r in recs}


def convert(docs, seeds=None):
    texts = [render(d, s) for d, s in zip(docs, seeds or [None] * len(docs))]
    return texts, harness([dict(cmd="xsd", text=t) for t in texts])


def structural(run, family, view, replay=None):
    if replay:
        docs = [replay["doc"]]
        fam = 0
    else:
        docs, fam = documents(run, family, 600 if run.quick else 2500)
        more = sampled(run, family, 20000)
        docs += more
        run.add("documents_of_other_families", len(more))
    full = [] if replay else corpus(run)
    whole = len(docs)
    docs += edited(run, full, 300 if run.quick else 4000) + [d for _, _, d in full]
    texts, obs = convert(docs)
    if full:                                       # as their authors wrote them, too
        texts += [t for _, t, _ in full]
        obs += harness([dict(cmd="xsd", text=t) for _, t, _ in full])
        docs += [d for _, _, d in full]
    verdicts = judge(run, [dict(doc=d, obs=o, partial=i >= whole) for i, (d, o) in enumerate(zip(docs, obs))], view)
    for i, d in enumerate(docs):
        v = verdicts[i]
        if not v["ok"]:
            run.violation(dict(property=run.prop, view=view, doc=d, text=texts[i], verdict=v, msg=obs[i].get("msg")))
    run.add("documents", len(docs))
    run.add("definitions_compared", sum(len(o.get("items", [])) for o in obs))
    run.cov["exhaustive"] = bool(fam)
    run.cov["family"] = family
    if docs:
        run.sample(dict(text=texts[0], verdict=verdicts[0]))
        run.sample(dict(text=texts[-1], verdict=verdicts[len(docs) - 1]))


def inert(run, replay=None):
    """Styles: layout, comments, annotations, quoting, order of XML attributes."""
    import random
    if replay:
        docs, styles = [replay["doc"]], [[replay["style"]]]
    else:
        docs, _ = documents(run, None, 500 if run.quick else 3000)
        rnd = random.Random(run.seed)
        docs += sampled(run, "aside", 80 if run.quick else 800) + family_of(run, "aside", 6)
        k = 4 if run.quick else 10
        styles = [[rnd.randrange(1, 10 ** 9) for _ in range(k)] for _ in docs]
    plain = harness([dict(cmd="xsd", text=render(d, asides=False), tokens=True) for d in docs])
    flat = [(i, s) for i, ss in enumerate(styles) for s in ss]
    texts = [render(docs[i], s) for i, s in flat]
    obs = harness([dict(cmd="xsd", text=t, tokens=True) for t in texts])
    lines = [dict(doc=d, plain=p.get("tokens", ""), styles=[]) for d, p in zip(docs, plain)]
    where = {}
    for (i, s), o, t in zip(flat, obs, texts):
        lines[i]["styles"].append(dict(obs=dict(st=o["st"], items=o.get("items", [])), tokens=o.get("tokens", "")))
        where[(i, len(lines[i]["styles"]))] = (s, t, o)
    log = os.path.join(run.dir, "log.ndjson")
    write_ndjson(log, lines)
    recs, text, ok = tlc("XsdInert", env={"OBS": log}, workers=8, heap="8g", timeout=3000)
    if not ok or len(recs) != len(flat):
        raise ToolError("judging failed:\n" + text[-2000:])
    run.count(text)
    run.add("traces_validated_against_impl", len(lines))
    run.add("styles_compared", len(flat))
    for r in recs:
        if not r["ok"]:
            s, t, o = where[(r["line"] - 1, r["style"])]
            run.violation(dict(property=run.prop, why=r["why"], doc=docs[r["line"] - 1], style=s, text=t, msg=o.get("msg")))
    if texts:
        run.sample(dict(text=texts[0]))


def notes(run, replay=None):
    """Comments: documents of all kinds, documented in several ways, and what the generated code says."""
    import random
    if replay:
        docs, seeds = [replay["doc"]], [replay["seed"]]
    else:
        rnd = random.Random(run.seed)
        plain, _ = documents(run, None, 250 if run.quick else 3000)
        plain += sampled(run, None, 60 if run.quick else 800)
        plain += edited(run, corpus(run), 100 if run.quick else 2000)
        src = os.path.join(run.dir, "plain.ndjson")
        write_ndjson(src, plain)
        docs, text, ok = tlc("XsdAnnotate", cfg="XsdAnnotate.cfg" if run.quick else "XsdAnnotateDeep.cfg", env={"CORPUS": src},
                             workers=8, heap="8g", timeout=3000, name="annotate")
        if not ok:
            raise ToolError("annotating failed:\n" + text[-3000:])
        run.count(text)
        seeds = [rnd.randrange(1, 10 ** 9) for _ in docs]
    texts = [render(d, None, s) for d, s in zip(docs, seeds)]
    obs = harness([dict(cmd="xsd", text=t, notes=True) for t in texts])
    verdicts = judge(run, [dict(doc=d, obs=dict(st=o["st"], notes=o.get("notes", []))) for d, o in zip(docs, obs)], "notes", "NotesJudge")
    for i, d in enumerate(docs):
        v = verdicts[i]
        if not v["ok"]:
            run.violation(dict(property=run.prop, doc=d, seed=seeds[i], text=texts[i], verdict=v, msg=obs[i].get("msg")))
    run.add("documents", len(docs))
    run.add("comments_compared", sum(len(o.get("notes", [])) for o in obs))
    if docs:
        run.sample(dict(text=texts[0], verdict=verdicts[0]))


def custom(run, replay=None):
    """Generators with custom parts: histories of the builder, and documents of all kinds."""
    if replay:
        cases = [dict(calls=replay["calls"], doc=replay["doc"])]
    else:
        plain, _ = documents(run, None, 250 if run.quick else 3000)
        plain += sampled(run, None, 40 if run.quick else 600)
        plain += edited(run, corpus(run), 60 if run.quick else 1000)
        src = os.path.join(run.dir, "plain.ndjson")
        write_ndjson(src, plain)
        cases, text, ok = tlc("XsdCustomGen", env={"CORPUS": src}, sim=dict(num=1500 if run.quick else 30000, depth=20, seed=run.seed),
                              heap="4g", timeout=3000, name="custom")
        if not ok:
            raise ToolError("building failed:\n" + text[-3000:])
        run.count(text)
    texts = [render(c["doc"]) for c in cases]
    obs = harness([dict(cmd="custom", text=t, calls=c["calls"]) for t, c in zip(texts, cases)])
    verdicts = judge(run, [dict(c, obs=o) for c, o in zip(cases, obs)], "custom", "CustomJudge")
    for i, c in enumerate(cases):
        v = verdicts[i]
        if not v["ok"]:
            run.violation(dict(property=run.prop, calls=c["calls"], doc=c["doc"], text=texts[i], verdict=v, msg=obs[i].get("msg")))
    run.add("generators_built", len(cases))
    run.add("definitions_compared", sum(len(o.get("items", [])) for o in obs))
    if cases:
        run.sample(dict(calls=cases[0]["calls"], text=texts[0], verdict=verdicts[0]))
