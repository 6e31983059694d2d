#!/usr/bin/env python3
"""run.py <PROPERTY> [--tier quick|thorough] [--only HARNESS] [--unit U] [--replay FILE]

Builds the harness executables of one property from /repo's working tree, enumerates their whole
bounded space on 8 cores, replays every violation before reporting it and writes evidence/<ID>.json.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: error of the check itself."""
import sys, os, json, subprocess, hashlib, time, tempfile, shutil, re, argparse
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
import checks

BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known_findings.txt")
NJ = int(os.environ.get("VERIF_JOBS", "8"))


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(VERIF, "mc"), os.path.join(VERIF, "harness")):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:20]


def die(msg):
    print("CHECK-ERROR: " + msg)
    sys.exit(2)


def run_cmd(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", **kw)


class DoesNotCompile(Exception):
    """A configuration that the property says is supported does not compile (C29)."""

    def __init__(self, u, msg):
        Exception.__init__(self, msg)
        self.v = {"unit": u["name"], "harness": "compile", "path": "", "key": "compile", "where": "", "msg": "supported configuration does not compile: " + msg, "exe": ""}


def build_unit(u, outdir):
    exe = os.path.join(outdir, u["name"])
    if os.path.exists(exe):
        return exe, 0.0
    t0 = time.time()
    tmp = exe + ".tmp%d" % os.getpid()
    if "build" in u:  # custom builder (python callable)
        u["build"](u, tmp, REPO, VERIF, outdir)
    else:
        cmd = ["g++", "-std=c++20", u.get("opt", "-O1"), "-g0", "-w", "-DTLAPACK_CHECK_INPUT",
               "-I", os.path.join(REPO, "include"), "-I", os.path.join(VERIF, "mc"), "-I", os.path.join(VERIF, "harness"), "-I", outdir]
        cmd += u.get("flags", [])
        cmd += ["-D%s=%s" % (k, v) for k, v in u.get("defs", {}).items()]
        cmd += [os.path.join(VERIF, "harness", u["src"]), "-o", tmp] + u.get("libs", [])
        r = run_cmd(cmd)
        if r.returncode != 0:
            if u.get("must_compile") and r.returncode == 1 and os.path.join(REPO, "include") in r.stderr and ": error: " in r.stderr:
                raise DoesNotCompile(u, [x for x in r.stderr.split("\n") if ": error: " in x][0])
            raise RuntimeError("compilation of %s failed:\n%s\n%s" % (u["name"], " ".join(cmd), r.stderr[:6000]))
    os.rename(tmp, exe)
    return exe, time.time() - t0


def read_progress(path):
    import struct
    try:
        with open(path, "rb") as f:
            data = f.read()
        hidx, depth = struct.unpack_from("ii", data, 0)
        vals = struct.unpack_from("%di" % min(depth, 256), data, 8)
        return hidx, list(vals)
    except Exception:
        return None


def harness_list(exe):
    return run_cmd([exe, "--list"]).stdout.split()


def replay(exe, harness, path, tier, leaf_cpu, prop, unit):
    try:
        r = run_cmd([exe, "--only", harness, "--replay", path, "--tier", str(tier), "--leaf-cpu", str(leaf_cpu), "--unit", unit, "--property", prop], timeout=leaf_cpu * 4 + 60)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return -999, "timeout"


def run_shard(prop, u, exe, shard, nshards, tier, only, workdir):
    base = os.path.join(workdir, "%s.%d" % (u["name"], shard))
    out, prog = base + ".out", base + ".prog"
    cmd = [exe, "--shard", "%d/%d" % (shard, nshards), "--tier", str(tier), "--unit", u["name"],
           "--known", KNOWN, "--property", prop, "--out", out, "--progress", prog,
           "--leaf-cpu", str(u.get("leaf_cpu", 40))]
    if only:
        cmd += ["--only", only]
    r = run_cmd(cmd)
    recs = []
    if os.path.exists(out):
        with open(out, errors="replace") as f:
            for line in f:
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    pass
    done = any("done" in x for x in recs)
    crash = None
    if not done:
        crash = {"rc": r.returncode, "stderr": (r.stderr or "")[-800:], "progress": read_progress(prog)}
    return u, exe, shard, nshards, recs, crash


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--unit")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    if prop not in checks.CHECKS:
        die("no check for " + prop)
    chk = checks.CHECKS[prop]
    tier = 1 if a.tier == "thorough" else 0
    t0 = time.time()
    units = [u for u in chk["units"](tier) if not a.unit or re.search(a.unit, u["name"])]
    th = tree_hash()
    outdir = os.path.join(BUILD, prop + "-" + th)
    # drop stale builds of this property
    if os.path.isdir(BUILD):
        for d in os.listdir(BUILD):
            if d.startswith(prop + "-") and d != os.path.basename(outdir):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)

    if a.replay:
        rec = json.load(open(a.replay))
        us = [u for u in checks.CHECKS[prop]["units"](1 if rec["tier"] == "thorough" else 0) if u["name"] == rec["unit"]]
        try:
            exe, _ = build_unit(us[0], outdir)
        except DoesNotCompile as ex:
            print(ex.v["msg"])
            sys.exit(1)
        rc, o = replay(exe, rec["harness"], rec["path"], 1 if rec["tier"] == "thorough" else 0, 120, prop, rec["unit"])
        print(o)
        sys.exit(1 if rc != 0 else 0)

    workdir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    violations, stats, known, errors, skipped = [], [], {}, [], []
    btime = 0.0
    try:
        with ThreadPoolExecutor(NJ) as pool:
            futs = {}
            # longest compile first is left to the order given in checks.py
            for u in units:
                futs[pool.submit(build_unit, u, outdir)] = ("build", u)
            while futs:
                for f in as_completed(list(futs)):
                    kind, u = futs.pop(f)
                    try:
                        res = f.result()
                    except DoesNotCompile as ex:
                        violations.append(ex.v)
                        break
                    except Exception as ex:
                        if u.get("optional") and kind == "build":
                            skipped.append(u["name"])
                        else:
                            errors.append(str(ex))
                        break
                    if kind == "build":
                        exe, bt = res
                        btime += bt
                        ns = u.get("shards", 1)
                        for s in range(ns):
                            futs[pool.submit(run_shard, prop, u, exe, s, ns, tier, a.only, workdir)] = ("run", u)
                    else:
                        u, exe, shard, ns, recs, crash = res
                        for r in recs:
                            if "violation" in r:
                                r["violation"]["exe"] = exe
                                violations.append(r["violation"])
                            elif "stats" in r:
                                r["stats"]["shard"] = shard
                                stats.append(r["stats"])
                            elif "known" in r:
                                k = r["known"]["text"]
                                known[k] = known.get(k, 0) + r["known"]["hits"]
                        if crash:
                            p = crash["progress"]
                            if crash["rc"] == 97 or p is None:
                                errors.append("harness %s failed (rc %s): %s" % (u["name"], crash["rc"], crash["stderr"]))
                            else:
                                names = harness_list(exe)
                                h = names[p[0]] if p[0] < len(names) else "?"
                                violations.append({"unit": u["name"], "harness": h, "path": ",".join(map(str, p[1])), "key": "crash",
                                                   "where": "", "msg": "process ended with code %s %s (crash or hang)" % (crash["rc"], crash["stderr"].strip()), "exe": exe, "crash": True})
                    break
    finally:
        shutil.rmtree(workdir, ignore_errors=True)

    # replay before report
    confirmed, unconfirmed, seen = [], [], set()
    for v in violations:
        sig = (v["harness"], v["key"], v["unit"])
        if sig in seen or len(confirmed) >= 12:
            continue
        seen.add(sig)
        if v["key"] == "compile":
            confirmed.append(v)
            continue
        rc, o = replay(v["exe"], v["harness"], v["path"], tier, 180, prop, v["unit"])
        if v.get("crash") and rc == 0:
            unconfirmed.append((v, o))
        elif rc == 0:
            unconfirmed.append((v, o))
        elif rc == 97:
            errors.append("replay divergence for %s %s" % (v["harness"], v["path"]))
        else:
            if v.get("crash"):
                v["where"] = o.strip()[-400:]
            confirmed.append(v)
    if unconfirmed and not confirmed:
        # a failure that needs the shard's history (uninitialised memory): rerun the whole shard
        v, o = unconfirmed[0]
        u = [x for x in units if x["name"] == v["unit"]][0]
        wd = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        again = []
        for s in range(u.get("shards", 1)):
            _, _, _, _, recs, crash = run_shard(prop, u, v["exe"], s, u.get("shards", 1), tier, v["harness"], wd)
            again += [r["violation"] for r in recs if "violation" in r]
            if crash:
                again.append(v)
        shutil.rmtree(wd, ignore_errors=True)
        if again:
            v["msg"] += " [needs the preceding executions of its shard: reproduced by re-running the shard]"
            confirmed.append(v)
        else:
            errors.append("violation did not reproduce: %s %s %s" % (v["harness"], v["path"], v["msg"]))

    per = {}
    for s in stats:
        d = per.setdefault(s["harness"], {"states": 0, "leaves": 0, "trans": 0, "checks": 0, "outcomes": 0, "samples": [], "complete": True, "cpu_s": 0.0})
        if s["shard"] == 0:
            d["states"] += s["prefix_states"] + 1
            d["trans"] += s["prefix_states"]
        d["states"] += s["states"]
        d["trans"] += s["states"] + s["transitions"]
        d["leaves"] += s["leaves"]
        d["checks"] += s["checks"]
        d["outcomes"] += s["outcomes"]
        d["cpu_s"] = round(d["cpu_s"] + s["wall"], 2)
        d["complete"] = d["complete"] and s["complete"]
        if len(d["samples"]) < 3:
            d["samples"] += ["%s/%s: %s" % (s["unit"], s["harness"], x) for x in s["samples"][-2:]]
    wall = time.time() - t0
    nz = [h for h, d in per.items() if d["leaves"] == 0]
    if nz and not confirmed and not a.only:
        errors.append("vacuous harness (no execution): " + ",".join(nz))
    samples = []
    for h, d in per.items():
        samples += d["samples"][:2]
    ev = {"property": prop, "tier": "thorough" if tier else "quick", "seed": int(os.environ.get("VERIF_SEED", "1")),
          "level": "model_checking",
          "coverage": {
              "states": sum(d["states"] for d in per.values()),
              "transitions": sum(d["trans"] for d in per.values()),
              "traces_validated_against_impl": sum(d["leaves"] for d in per.values()),
              "oracle_comparisons": sum(d["checks"] for d in per.values()),
              "distinct_outcomes": sum(d["outcomes"] for d in per.values()),
              "exhaustive": all(d["complete"] for d in per.values()) and not errors and not skipped and not a.only and not a.unit,
              "samples": samples[:40] or ["none"],
              "harnesses": {h: {k: d[k] for k in ("states", "trans", "leaves", "checks", "outcomes", "complete", "cpu_s")} for h, d in sorted(per.items())},
              "units": [u["name"] for u in units],
              "known_findings_hit": known,
              "units_not_built": skipped,
          },
          "assumptions": chk.get("assumptions", []) + ["bounded: shapes, alphabets and data families as listed in DESIGN.md; every point of that finite space is executed on the real code", "reference model evaluated in x87 80-bit arithmetic"],
          "wall_s": round(wall, 2), "violations": len(confirmed)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s tier=%s units=%d harnesses=%d states=%d transitions=%d executions=%d comparisons=%d outcomes=%d build_cpu=%.0fs wall=%.1fs" % (
        prop, a.tier, len(units), len(per), ev["coverage"]["states"], ev["coverage"]["transitions"], ev["coverage"]["traces_validated_against_impl"],
        ev["coverage"]["oracle_comparisons"], ev["coverage"]["distinct_outcomes"], btime, wall))
    if a.v:
        for h, d in sorted(per.items()):
            print("  %-28s states=%-9d exec=%-9d checks=%-9d outcomes=%-8d cpu=%.1f" % (h, d["states"], d["leaves"], d["checks"], d["outcomes"], d["cpu_s"]))
    for n in skipped:
        print("NOTE: unit %s does not compile with the user-defined scalar type and was left out" % n)
    for t, n in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s (hit %d times)" % (prop, t, n))
    for v in confirmed:
        name = "%s-%s-%s.json" % (prop, v["unit"], hashlib.sha1((v["harness"] + v["path"]).encode()).hexdigest()[:8])
        rp = os.path.join(REPLAYS, name)
        rec = {k: v[k] for k in ("unit", "harness", "path", "key", "where", "msg")}
        rec.update(property=prop, tier=a.tier, replay_cmd="python3 /verif/run.py %s --replay %s" % (prop, rp))
        with open(rp, "w") as f:
            json.dump(rec, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        print("   unit=%s harness=%s key=%s [%s] %s" % (v["unit"], v["harness"], v["key"], v["where"], v["msg"]))
    if confirmed:
        sys.exit(1)
    if errors:
        for e in errors:
            print("CHECK-ERROR: " + e)
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
