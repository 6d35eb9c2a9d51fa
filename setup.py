#!/usr/bin/env python3
"""Builds everything the checks run, once, from /repo's working tree."""
import os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V, os.path.join(V, "harness")]
import build
from check import CHECKS
from concurrent.futures import ThreadPoolExecutor
for cfg in sorted({c for k, n, c in CHECKS.values() if k == "cpp"}):
    build.lib(cfg)
with ThreadPoolExecutor(8) as ex:
    jobs = [ex.submit(build.harness, name, cfg) for kind, name, cfg in CHECKS.values() if kind == "cpp"]
    if any(kind != "cpp" for kind, name, cfg in CHECKS.values()):
        build.tools()
    for j in jobs:
        j.result()
print("ok")
