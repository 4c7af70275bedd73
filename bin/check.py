#!/usr/bin/env python3
"""Build a checker from /repo's working tree, explore, write evidence.

  check.py C01 [quick|thorough]      run one property's check
  check.py --replay FILE             re-execute a recorded violation
"""
import json, os, subprocess, sys, tempfile, shutil, time, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "bin"))
from checks import CHECKS

CXX = ["clang++", "-std=c++17", "-w", "-DINDEXES_VERIF"]
TSAN = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def build(run, d):
    """run: dict(harness, parts, tsan, opt, defs). Returns path of the executable or raises."""
    key = run["harness"] + "".join(c if c.isalnum() else "_" for c in " ".join(run.get("defs", [])))
    exe = os.path.join(d, key)
    if os.path.exists(exe):
        return exe
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src/benchmark"), "-I" + os.path.join(V, "stubs"), "-I" + V]
    for pad in (0, 16, 32, 64):
        procs, objs = [], []
        for f in ("rt", "seq"):
            o = os.path.join(d, f + ".o")
            if not os.path.exists(o):
                procs.append((None, subprocess.Popen(CXX + ["-O2", "-c", os.path.join(V, "rt", f + ".cpp"), "-o", o], stderr=subprocess.PIPE)))
            objs.append(o)
        for p in range(run.get("parts", 1)):
            o = exe + ".%d.o" % p
            cmd = CXX + [run.get("opt", "-O1")] + (TSAN if run.get("tsan") else []) + ["-DPART=%d" % p, "-DPAD=%d" % pad] + \
                ["-D" + x for x in run.get("defs", [])] + inc + ["-c", os.path.join(V, "harness", run["harness"]), "-o", o]
            procs.append((p, subprocess.Popen(cmd, stderr=subprocess.PIPE)))
            objs.append(o)
        errs = ""
        for p, pr in procs:
            e = pr.communicate()[1].decode(errors="replace")
            if pr.returncode:
                errs += e
        if not errs:
            break
        if "static assertion" not in errs and "static_assert" not in errs:
            break
        log("retrying the build with larger nodes")
    if errs:
        log(errs[:6000])
        raise RuntimeError("the checker does not compile against the current tree")
    subprocess.check_call(CXX + ["-o", exe] + objs + ["-ldl"])
    return exe

def known_findings():
    """Lines 'known: property=C01 program=<substring> match=<regex> :: text' suppress exactly that violation."""
    out = []
    p = os.path.join(V, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) program=\"([^\"]*)\" match=\"([^\"]*)\" :: (.*)", l)
            if m:
                out.append(m.groups())
    return out

def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    d = tempfile.mkdtemp(prefix="mc-")
    try:
        return check(pid, tier, seed, d, t0)
    except Exception as e:
        log("check error:", e)
        return 3
    finally:
        shutil.rmtree(d, ignore_errors=True)

def write_replay(pid, run, v):
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    path = os.path.join(V, "evidence", "replay-%s.txt" % pid)
    with open(path, "w") as f:
        f.write("property %s\nrun %s\nprogram %s\nbound %d shard %d of %d\nmask %d\nmessage %s\n" % (
            pid, json.dumps(run), v["program"], v["bound"], v["shard"], v["nshards"], run["mask"], v["msg"]))
        if "ops" in v:
            f.write("ops %s\n" % v["ops"])
        f.write("choices%s\n" % v["choices"])
    return path

def check(pid, tier, seed, d, t0):
    spec = CHECKS[pid]
    tot = dict(states=0, transitions=0, traces=0)
    samples, details, assumptions = [], [], list(spec.get("assumptions", []))
    exhaustive, viol, nviol = True, None, 0
    known = known_findings()
    hits = []
    for run in spec["runs"]:
        if tier == "quick" and run.get("thorough_only"):
            continue
        exe = build(run, d)
        tb = time.time() - t0
        out = os.path.join(d, "out.json")
        if os.path.exists(out):
            os.unlink(out)
        budget = run.get("time", 300) if tier == "quick" else run.get("time_thorough", 3600)
        deepen = run.get("deepen", 30) if tier == "quick" else run.get("deepen_thorough", 1500)
        cmd = [exe, "--deepen", str(deepen), "--mask", str(run["mask"]), "--tier", tier, "--out", out, "--time", str(budget)] + run.get("args", [])
        r = subprocess.run(cmd, timeout=None)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            raise RuntimeError("checker ended with status %d" % r.returncode)
        j = json.load(open(out))
        if j["engine"] == "seq":
            tot["states"] += j["states"]; tot["transitions"] += j["transitions"]; tot["traces"] += j["paths"]
            det = {k: j[k] for k in ("states", "transitions", "paths", "checks", "maxdepth", "units", "units_complete", "units_closed", "rounds", "models", "exhaustive", "wall") if k in j}
        else:
            tot["states"] += j["nodes"]; tot["transitions"] += j["steps"]; tot["traces"] += j["executions"]
            det = {k: j[k] for k in ("executions", "nontrivial", "pruned", "steps", "nodes", "histories", "max_bound", "exhaustive", "wall")}
            det["programs"] = len(j["programs"]); det["programs_with_all_schedules_explored"] = j["closed"]
            det["bounds"] = {}
            for p in j["programs"]:
                b = "all schedules" if p["all_schedules"] else "bound %d" % p["bound"]
                det["bounds"][b] = det["bounds"].get(b, 0) + 1
        det["engine"] = j["engine"]; det["harness"] = run["harness"]; det["build_s"] = round(tb, 1)
        details.append(det)
        samples += j["samples"][:2]
        exhaustive = exhaustive and j["exhaustive"]
        v = j["violation"]
        if v:
            k = [x for x in known if x[0] == pid and x[1] in v["program"] and re.search(x[2], v["msg"])]
            if k:
                hits.append(k[0][3]); exhaustive = False
                continue
            viol = (run, v); nviol += 1
            break
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
          "coverage": {"states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": tot["traces"],
                       "samples": [s[:700] for s in samples] or ["(violation found before the first sample)"], "exhaustive": bool(exhaustive and not viol),
                       "explanation": spec["explain"], "runs": details},
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for h in dict.fromkeys(hits):
        print("KNOWN-FINDING: property=%s %s" % (pid, h))
    if viol:
        run, v = viol
        path = write_replay(pid, run, v)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  in '%s': %s" % (v["program"], v["msg"]))
        return 1
    print("OK property=%s states=%d transitions=%d executions=%d exhaustive=%s wall=%.1fs" % (
        pid, tot["states"], tot["transitions"], tot["traces"], exhaustive, time.time() - t0))
    return 0

def replay(path):
    run = None
    for l in open(path):
        if l.startswith("run "):
            run = json.loads(l[4:])
    d = tempfile.mkdtemp(prefix="mc-")
    try:
        exe = build(run, d)
        return subprocess.run([exe, "--mask", str(run["mask"]), "--replay", path]).returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
