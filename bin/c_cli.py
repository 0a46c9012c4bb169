"""Checks on the command line tools (P17). Behaviours of users and tools on a file tree come from
the specification (CliGen), are replayed with the real binaries in a scratch directory (as an
unprivileged user), and what was observed is checked against the specification (CliTrace)."""
import json, os, random, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from lib import *
from render import render
from c_wsdl import wsdl_documents, render_wsdl

NOBODY = 65534
BAD = [b'<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:element name="a"', b"", b'<?xml version="1.0"?><a>\xff\xfe</a>']
JUNK = [b"// old\n", b"pub struct Old { pub x: i32 }\n" * 20000]


def binaries(scratch):
    r = subprocess.run(["cargo", "build", "--locked", "--offline", "-q", "-p", "xsd-parser-cli", "-p", "wsdl-parser-cli"],
                       cwd="/repo", env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise ToolError("the tools do not build:\n" + r.stdout.decode()[-4000:])
    out = {}
    for k, n in (("xsd", "xsd-parser"), ("wsdl", "wsdl-parser")):
        out[k] = os.path.join(scratch, n)
        shutil.copy(os.path.join("/repo/target/debug", n), out[k])
        os.chmod(out[k], 0o755)
    return out


def contents(run, rnd):
    """For each tool: the bytes of every content of the specification (four documents)."""
    from c_xsd import documents
    docs, _ = documents(run, None, 60)
    pools = dict(xsd=[render(d) for d in docs], wsdl=[render_wsdl(w) for w in wsdl_documents(run, False, 40)])
    out = {}
    for tool, pool in pools.items():
        pool = sorted(set(pool))
        rnd.shuffle(pool)
        obs = harness([dict(cmd=tool, text=t, raw=True) for t in pool])
        found = {o["code"]: t for t, o in zip(pool, obs) if o.get("st") == "ok" and len(o["code"]) > 40}
        codes = sorted(found, key=len)
        if len(codes) < 4:
            raise ToolError("no documents to convert")
        pick = [codes[0], codes[-1]] + rnd.sample(codes[1:-1], 2)      # the shortest, the longest, and others
        m = {}
        for i, c in enumerate(pick):
            m[("doc", i + 1)] = found[c].encode()
            m[("code", i + 1)] = c.encode()
        m.update({("bad", i + 1): b for i, b in enumerate(BAD)})
        code = [m["code", i + 1] for i in range(4)]
        changed = lambda b, at: b[:at] + (b"#" if b[at:at + 1] != b"#" else b"/") + b[at + 1:]
        near = [changed(code[0], len(code[0]) // 2), changed(code[1], len(code[1]) - 1), code[0] + b"// more\n", code[0][:-1], code[2][:len(code[2]) // 2]]
        m.update({("junk", i + 1): b for i, b in enumerate(JUNK + near)})
        assert len(set(m.values())) == len(m)
        out[tool] = (m, {v: list(k) for k, v in m.items()})
    return out


def observe(root, names):
    files, dirs = [], [[]]
    for d, ds, fs in os.walk(root):
        rel = [] if d == root else os.path.relpath(d, root).split("/")
        dirs += [rel + [x] for x in ds]
        for f in fs:
            with open(os.path.join(d, f), "rb") as h:
                files.append(dict(p=rel + [f], c=names.get(h.read(), ["other"])))
    return files, dirs


def replay_one(job):
    n, b, scratch, bins, table = job
    root = os.path.join(scratch, "t%d" % n)
    os.mkdir(root)
    os.chown(root, NOBODY, NOBODY)
    bytes_of, names = table[b["tool"]]
    steps = []
    for x in b["ops"]:
        exit, stdout, stderr = 0, ["none"], False
        path = lambda p: os.path.join(root, *p)

        def mkdirs(p):
            for i in range(1, len(p) + 1):
                if not os.path.isdir(path(p[:i])):
                    os.mkdir(path(p[:i]))
                    os.chown(path(p[:i]), NOBODY, NOBODY)
        def user():
            if x["a"] == "put":
                mkdirs(x["p"][:-1])
                with open(path(x["p"]), "wb") as h:
                    h.write(bytes_of[tuple(x["c"])])
                os.chown(path(x["p"]), NOBODY, NOBODY)
            elif x["a"] == "del":
                os.remove(path(x["p"]))
            else:
                mkdirs(x["p"])
        if x["a"] != "run":
            try:
                user()
            except OSError:         # the tree is not as the specification has it: the judge sees that
                pass
        else:
            cmd = [bins[b["tool"]]]
            forms = [["-i", "-o"], ["--input", "--output"]][(n + len(steps)) % 2]
            for f, k in zip(forms, ("i", "o")):
                if x[k] != ["-"]:
                    cmd += [f, "/".join(x[k])]
            try:
                r = subprocess.run(cmd, cwd=root, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   timeout=120, user=NOBODY, group=NOBODY, extra_groups=[], env={"PATH": "/usr/bin:/bin", "HOME": root})
                exit, stderr = r.returncode, bool(r.stderr.strip())
                out = r.stdout
            except subprocess.TimeoutExpired:
                exit, out = -1, b"?"
            # printed: exactly the code, and perhaps the end of the line
            stdout = ["none"] if out == b"" else names.get(out, names.get(out[:-1], ["other"]) if out[-1:] == b"\n" else ["other"])
        files, dirs = observe(root, names)
        steps.append(dict(act=x, files=files, dirs=dirs, exit=exit, stdout=stdout, stderr=stderr))
    shutil.rmtree(root)
    return dict(tool=b["tool"], steps=steps)


def leaves(bs):
    """Leaves out behaviours that others continue."""
    keys = {json.dumps([b["tool"]] + b["ops"], sort_keys=True)[:-1] for b in bs}
    inner = set()
    for b in bs:
        for i in range(len(b["ops"])):
            inner.add(json.dumps([b["tool"]] + b["ops"][:i], sort_keys=True)[:-1])
    seen, out = set(), []
    for b in bs:
        k = json.dumps([b["tool"]] + b["ops"], sort_keys=True)[:-1]
        if k not in inner and k not in seen:
            seen.add(k)
            out.append(b)
    return out


def p17(run, replay=None):
    rnd = random.Random(run.seed)
    scratch = tempfile.mkdtemp(prefix="p17-")
    os.chmod(scratch, 0o755)
    try:
        bins = binaries(scratch)
        if replay:
            bs = [replay["behaviour"]]
            table = {bs[0]["tool"]: ({(k[0], k[1]): bytes.fromhex(v) for k, v in replay["contents"]},
                                     {bytes.fromhex(v): k for k, v in replay["contents"]})}
        else:
            table = contents(run, rnd)
            recs, text, ok = tlc("CliGen", cfg="CliGen.cfg", workers=6)
            if not ok:
                raise ToolError("the specification does not agree with itself:\n" + text[-3000:])
            run.count(text)
            small = leaves(recs)
            run.cov["exhaustive"] = True
            if run.quick:
                small = rnd.sample(small, min(len(small), 1200))
            recs, text, ok = tlc("CliGen", cfg="CliSim.cfg", sim=dict(num=150 if run.quick else 1500, depth=26, seed=run.seed))
            if not ok:
                raise ToolError(text[-2000:])
            run.count(text)
            large = leaves(recs)
            large = rnd.sample(large, min(len(large), 1500 if run.quick else 30000))
            bs = small + large
        with ThreadPoolExecutor(8) as ex:
            lines = list(ex.map(replay_one, [(n, b, scratch, bins, table) for n, b in enumerate(bs)]))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    log = os.path.join(run.dir, "runs.ndjson")
    write_ndjson(log, lines)
    recs, text, ok = tlc("CliTrace", env={"OBS": log}, workers=8, heap="8g", timeout=3000)
    if not ok or {r["line"] for r in recs} != set(range(1, len(lines) + 1)):
        raise ToolError("judging failed:\n" + text[-2000:])
    run.count(text)
    run.add("traces_validated_against_impl", len(lines))
    run.add("runs_of_the_tools", sum(s["act"]["a"] == "run" for l in lines for s in l["steps"]))
    for r in recs:
        if not r["ok"]:
            b = bs[r["line"] - 1]
            run.violation(dict(property=run.prop, behaviour=dict(tool=b["tool"], ops=b["ops"]), step=r["step"],
                               observed=lines[r["line"] - 1]["steps"][r["step"] - 1],
                               contents=[[list(k), v.hex()] for k, v in table[b["tool"]][0].items()]))
    for l in (lines[0], lines[-1]):
        run.sample(dict(tool=l["tool"], ops=[s["act"] for s in l["steps"]], last=l["steps"][-1]))
