#!/usr/bin/env python3
"""Builds the harness against /repo and parses the specifications."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
lib.build()
for f in sorted(os.listdir(lib.SPEC)):
    if f.endswith(".tla"):
        r = subprocess.run(["java", "-cp", lib.CP, "tla2sany.SANY", f], cwd=lib.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.exit(r.stdout.decode())
