#!/usr/bin/env python3
"""mkseed.py ID PROP FILE OLD NEW NEEDS BREAKS DEMO_CPP_FILE [--n occurrence]
Create seeded/ID from a text replacement (FILE relative to /repo), check that the demo passes on /repo
and fails in a patched scratch copy of the headers. (Build + stable tests are run by vcheck --bug ID.)"""
import sys, os, json, shutil, subprocess, tempfile
def mk(id, prop, edits, needs, breaks, demo, flags=""):
    d = os.environ.get("SEED_DIR", "/verif/seeded") + "/" + id
    os.makedirs(d, exist_ok=True)
    wt = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        subprocess.run("cp -a /repo/include /repo/src /repo/.git %s/ && cd %s && git checkout -q -f" % (wt, wt), shell=True, check=True)
        for e in edits:
            f, old, new = e[:3]
            occ = e[3] if len(e) > 3 else None
            p = os.path.join(wt, f)
            s = open(p).read()
            n = s.count(old)
            if occ is None:
                assert n == 1, "%s: %d occurrences in %s" % (id, n, f)
                s = s.replace(old, new)
            else:
                parts = s.split(old)
                assert len(parts) > occ + 1, (id, n)
                s = old.join(parts[:occ+1]) + new + old.join(parts[occ+1:])
            open(p, "w").write(s)
        diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True).stdout
        assert diff.strip()
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.cpp", "w").write(demo)
        open(d + "/demo.sh", "w").write("""#!/bin/bash
# run with cwd /repo; exit 0 = property observed to hold for the demonstrated case
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -DTLAPACK_NDEBUG -I"$PWD/include" "$d/demo.cpp" %s -o "$t/demo" || exit 0
timeout 60 "$t/demo"
""" % flags)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        a = subprocess.run([d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        b = subprocess.run([d + "/demo.sh"], cwd=wt, capture_output=True, text=True)
        print(id, "clean:", a.returncode, "patched:", b.returncode, a.stderr[-300:], "OK" if a.returncode == 0 and b.returncode != 0 else "BAD")
    finally:
        shutil.rmtree(wt)
