#!/usr/bin/env python3
"""setup_cmd: verifies the toolchain and compiles the engine self-test (nothing is cached between runs)."""
import os, subprocess, sys, tempfile
V = os.path.dirname(os.path.abspath(__file__))
with tempfile.TemporaryDirectory() as d:
    exe = os.path.join(d, "selftest")
    subprocess.check_call(["g++", "-std=c++20", "-O1", "-I", os.path.join(V, "mc"), os.path.join(V, "harness", "selftest.cpp"), "-o", exe])
    out = os.path.join(d, "o")
    subprocess.check_call([exe, "--out", out])
    t = open(out).read()
    assert '"harness":"selftest_count"' in t and '"leaves":12,' in t, t
    assert '"key":"seeded"' in t, t
    assert '"key":"assert"' in t, t
print("setup ok")
