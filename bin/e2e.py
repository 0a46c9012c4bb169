"""Compiles generated code together with a driver, and runs it."""
import os, re, shutil
from lib import *
import lib

PRE = """#![allow(warnings)]
use std::str::FromStr;
use xsd_macro_utils::*;
use xsd_parser::generator::validator::Validate;
use xsd_types::types as xs;
use yaserde_derive::{YaDeserialize, YaSerialize};

"""
TOML = """[package]
name = "%s"
version = "0.1.0"
edition = "2021"

[dependencies]
xsd-parser = { path = "/repo/xsd-parser" }
xsd-types = { path = "/repo/xsd-types" }
xsd-macro-utils = { path = "/repo/xsd-macro-utils" }
yaserde = "0.7"
yaserde_derive = "0.7"
xml-rs = "0.8"
num-bigint = "0.4"
bigdecimal = "0.4"
serde_json = "1"

[profile.dev]
opt-level = 0
debug = false
incremental = false

[workspace]
"""
MAIN = """#![allow(warnings)]
#[path = "../drv.rs"]
mod drv;
%s
fn probe(name: &str) -> Option<drv::Probe> {
    Some(match name {
%s
        _ => return None,
    })
}
fn main() {
    drv::serve(probe)
}
"""


class Crate:
    """modules: a list of (generated code, {probe name: (driver function, type path)})."""

    def __init__(self, run, name, bins=8):
        self.name = "vx-" + name.lower()
        self.dir = os.path.join(work(run.prop), "crate")
        self.bins = bins
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(os.path.join(self.dir, "src", "bin"))
        os.makedirs(os.path.join(self.dir, "src", "m"))
        open(os.path.join(self.dir, "Cargo.toml"), "w").write(TOML % self.name)
        shutil.copy(os.path.join(HARNESS, "Cargo.lock"), self.dir)
        shutil.copy(os.path.join(HARNESS, "drv.rs"), os.path.join(self.dir, "src", "drv.rs"))
        self.target = os.path.join(HARNESS, "target")

    def write(self, modules, alive):
        for b in range(self.bins):
            mods, arms = [], []
            for i in alive:
                if i % self.bins != b:
                    continue
                mods.append('#[path = "../m/m%d.rs"]\nmod m%d;' % (i, i))
                for p, (fn, ty) in modules[i][1].items():
                    arms.append('        "%s" => drv::%s::<m%d::%s>,' % (p, fn, i, ty))
            open(os.path.join(self.dir, "src", "bin", "%s-%d.rs" % (self.name, b)), "w").write(
                MAIN % ("\n".join(mods), "\n".join(arms)))

    def build(self, modules):
        """Compiles; returns {module: error} for the modules that do not."""
        for i, (code, _) in enumerate(modules):
            open(os.path.join(self.dir, "src", "m", "m%d.rs" % i), "w").write(PRE + code)
        self.modules, bad = modules, {}
        for _ in range(6):
            alive = [i for i in range(len(modules)) if i not in bad]
            self.write(modules, alive)
            env = cargo_env()
            env["CARGO_TARGET_DIR"] = self.target
            r = subprocess.run(["cargo", "build", "--offline", "--keep-going", "--message-format=short", "--bins"], cwd=self.dir, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode == 0:
                self.where = {p: i % self.bins for i in alive for p in modules[i][1]}
                return bad
            text = r.stdout.decode("utf-8", "replace")
            found = 0
            for line in text.splitlines():
                m = re.search(r"src/(?:bin/\.\./)?m/m(\d+)\.rs:\d+:\d+: error.*", line)
                if m:
                    found += 1
                    bad.setdefault(int(m.group(1)), line[:300])
                else:                      # a probe of a type that has not what it should have
                    m = re.search(r"(src/bin/.*\.rs):(\d+):\d+: error.*", line)
                    if m:
                        src = open(os.path.join(self.dir, m.group(1))).read().split("\n")[int(m.group(2)) - 1]
                        k = re.search(r"<m(\d+)::", src)
                        if k:
                            found += 1
                            bad.setdefault(int(k.group(1)), line[:300] + " " + src.strip())
            if not found:
                raise ToolError("generated code does not build:\n" + text[-3000:])
        raise ToolError("generated code does not build, again and again")

    def run(self, cmds, timeout=20):
        """cmds: [dict(p=probe, xs=[texts])]; answers in order (st: ok, crash, hang)."""
        from concurrent.futures import ThreadPoolExecutor
        by = {}
        for i, c in enumerate(cmds):
            c["id"] = i
            by.setdefault(self.where[c["p"]], []).append(c)
        out = [None] * len(cmds)
        exe = lambda b: os.path.join(self.target, "debug", "%s-%d" % (self.name, b))
        with ThreadPoolExecutor(8) as ex:
            for part in ex.map(lambda b: lib._drive(by[b], timeout, exe(b)), by):
                for r in part:
                    out[r["id"]] = r
        return out

    def close(self):
        for b in range(self.bins):
            for f in (os.path.join(self.target, "debug", "%s-%d" % (self.name, b)),):
                if os.path.exists(f):
                    os.remove(f)
        shutil.rmtree(self.dir, ignore_errors=True)
