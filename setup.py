#!/usr/bin/env python3
"""Checks that the tools the checks need are there and that both harness crates build (the checks build
everything they need themselves; this only fails early when the sandbox is not what they expect)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf.common import run
from vf.build import build, BuildError
from vf.cross import sysroot, tool
bad = 0
for cmd in (["valgrind", "--version"], ["rustc", "+nightly", "-vV"], ["rustc", "+1.97.0", "-vV"], [tool("llvm-objdump"), "--version"]):
    p = run(cmd, timeout=60)
    print(" ".join(cmd), "ok" if p.rc == 0 else p.err[-200:])
    bad |= p.rc != 0
for crate, cfg, b in (("native", "x64-cx16", "amu-native"), ("views", "x64-cx16", "amu-views")):
    try:
        print(build(crate, cfg, b))
    except BuildError as e:
        print(e.log)
        bad = 1
sys.exit(1 if bad else 0)
