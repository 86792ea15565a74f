#!/usr/bin/env python3
"""One-off readiness test: the compiler, the sanitizer runtimes and the sources work together."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B  # noqa: E402

exe = B.build(os.path.join(B.HARNESS, "props", "C01.cpp"), "asan", name="C01")
env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
r = subprocess.run([exe, "--seed", "1", "--tier", "quick", "--cases", "4"], env=env, stdout=subprocess.DEVNULL)
sys.exit(0 if r.returncode == 0 else 1)
