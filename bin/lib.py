"""Glue: runs TLC, the harness, and moves records between them."""
import json, os, subprocess, sys, shutil, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
WORK = os.path.join(ROOT, "work")
HARNESS = os.path.join(ROOT, "harness")
VH = os.path.join(HARNESS, "target", "debug", "vh")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def work(name):
    d = os.path.join(WORK, name)
    os.makedirs(d, exist_ok=True)
    return d


ENV = {}


def cargo_env():
    if not ENV:
        r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE)
        for kv in r.stdout.decode(errors="replace").split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                ENV[k] = v
        ENV["CARGO_NET_OFFLINE"] = "true"
        ENV.pop("CARGO_TARGET_DIR", None)
        ENV.pop("RUSTFLAGS", None)
    return dict(ENV)


def build():
    r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=HARNESS, env=cargo_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise ToolError("harness does not build:\n" + r.stdout.decode()[-4000:])


def harness(cmds, timeout=20, jobs=8):
    """Runs commands; a command that kills or hangs the process is an observation too."""
    from concurrent.futures import ThreadPoolExecutor
    for i, c in enumerate(cmds):
        c["id"] = i
    res = [None] * len(cmds)
    chunks = [cmds[i::jobs] for i in range(jobs)]
    with ThreadPoolExecutor(jobs) as ex:
        for part in ex.map(lambda c: _drive(c, timeout), [c for c in chunks if c]):
            for r in part:
                res[r["id"]] = r
    return res


def _drive(cmds, timeout, exe=VH):
    import threading, queue
    out, todo = [], list(cmds)
    while todo:
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        q = queue.Queue()

        def feed(p=p, todo=list(todo)):
            try:
                for c in todo:
                    p.stdin.write((json.dumps(c) + "\n").encode())
                p.stdin.close()
            except (BrokenPipeError, OSError):
                pass

        def read(p=p, q=q):
            for line in p.stdout:
                q.put(line)
            q.put(None)
        threading.Thread(target=feed, daemon=True).start()
        threading.Thread(target=read, daemon=True).start()
        bad = None
        while todo:
            try:
                line = q.get(timeout=timeout)
            except queue.Empty:
                bad = "hang"
                break
            if line is None:
                bad = "crash"
                break
            r = json.loads(line)
            assert r["id"] == todo[0]["id"]
            out.append(r)
            todo.pop(0)
        p.kill()
        p.wait()
        if bad:
            out.append({"id": todo[0]["id"], "st": bad})
            todo.pop(0)
    return out


def tlc(module, cfg=None, env=None, sim=None, workers=1, timeout=800, name=None, heap="4g", extra=()):
    """Runs TLC; returns the records printed (lines starting with @@), and the rest."""
    name = name or module
    d = work("tlc-" + name + "-%d-%d" % (os.getpid(), int(time.time() * 1e6)))
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Dfile.encoding=UTF-8", "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet" if False else "-DX=1",
           "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", d, "-workers", str(workers),
           "-config", os.path.join(SPEC, cfg or module + ".cfg")]
    if sim:
        cmd += ["-simulate", "num=%d" % sim["num"], "-depth", str(sim["depth"]), "-seed", str(sim["seed"])]
    cmd += list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out: " + name)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    recs, rest = [], []
    for line in r.stdout.decode("utf-8", "replace").splitlines():
        if line.startswith('"@@'):
            recs.append(json.loads(json.loads(line)[2:]))
        else:
            rest.append(line)
    text = "\n".join(rest)
    ok = r.returncode == 0 and "Error:" not in text
    return recs, text, ok


def write_ndjson(path, recs):
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps(r) + "\n")


def read_ndjson(path):
    with open(path) as f:
        return [json.loads(l) for l in f]
