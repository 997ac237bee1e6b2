#!/usr/bin/env python3
"""Builds one explorer from /repo's current tree, runs its shards, writes the
evidence file and reports.  usage: run.py <property> [quick|thorough]"""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("IIRMC_REPO", "/repo")  # another tree only while developing
sys.path.insert(0, VERIF)
sys.path.insert(0, VERIF + "/tools")
from checks import CHECKS
from props import P

def sh(cmd, timeout=600):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def build(cfg, tier, scratch, name="explorer", over=None):
    """compile library, registries and explorer in parallel; returns the program"""
    c = dict(cfg); c.update(over or {})
    cxx = c.get("cxx", "g++")
    opt = c.get("opt", "-O1")
    flags = ["-std=c++11", opt, "-w", "-I" + REPO, "-I" + REPO + "/iir", "-I" + VERIF + "/harness"] + c.get("flags", [])
    lib = sorted(glob.glob(REPO + "/iir/*.cpp"))
    units = [(s, c.get("libflags", [])) for s in lib]
    caps = c.get("caps_thorough") if tier == "thorough" and c.get("caps_thorough") else c.get("caps", {})
    capf = []
    for t in ("DF1", "DF2", "TDF2"):
        capf.append("-DCAPS_%s=%s" % (t, " ".join("X(%d)" % n for n in caps.get(t, []))))
    for r in c.get("regs", []):
        units.append((VERIF + "/harness/reg_%s.cpp" % r, capf + c.get("regflags", [])))
    for s in c["src"]:
        units.append((VERIF + "/harness/" + s, c.get("srcflags", []) + ["-DHAVE_" + r.upper() for r in c.get("regs", [])]))
    objs, jobs = [], []
    for i, (s, fl) in enumerate(units):
        o = "%s/%s-%d.o" % (scratch, name, i)
        objs.append(o)
        jobs.append([cxx] + flags + fl + ["-c", s, "-o", o])
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for r, j in zip(ex.map(sh, jobs), jobs):
            if r.returncode:
                print("BUILD FAILED: " + " ".join(j) + "\n" + r.stdout[-4000:])
                return None
    exe = "%s/%s" % (scratch, name)
    j = [cxx] + flags + objs + ["-o", exe] + c.get("ldflags", [])
    r = sh(j)
    if r.returncode:
        print("LINK FAILED: " + " ".join(j) + "\n" + r.stdout[-4000:])
        return None
    return exe

def run_shard(exe, i, n, tier, out, limit, env, args):
    cmd = [exe, "--shard", "%d/%d" % (i, n), "--tier", tier, "--out", out] + args
    for f in (out, out + ".crash"):
        if os.path.exists(f): os.remove(f)
    with open(out + ".log", "w") as log:
        try:
            p = subprocess.run(cmd, stdout=log, stderr=subprocess.STDOUT, timeout=limit, env=env)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
    log = open(out + ".log", errors="replace").read()
    res = None
    if os.path.exists(out):
        try: res = json.load(open(out))
        except Exception: res = None
    crash = open(out + ".crash").read() if os.path.exists(out + ".crash") else ""
    return rc, res, log, crash

def known_findings(prop):
    res = {}
    for l in open(VERIF + "/known_findings.txt"):
        m = re.match(r"known: property=(\S+) key=(\S+)\s+(.*)", l.strip())
        if m and m.group(1) == prop: res[m.group(2)] = m.group(3)
    return res

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    cfg = CHECKS[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="iirmc-%s-" % prop)
    rc = 2
    try:
        rc = work(prop, tier, cfg, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def work(prop, tier, cfg, scratch, t0):
    env = dict(os.environ)
    env.update(cfg.get("env", {}))
    args = []
    exe = build(cfg, tier, scratch)
    if not exe: return 2
    for k, v in cfg.get("second", {}).items():  # further program variants, passed as --<k> path
        e2 = build(cfg, tier, scratch, "explorer-" + k, v)
        if not e2: return 2
        args += ["--" + k, e2]
    tb = time.time()
    n = cfg.get("shards", 8 if tier == "quick" else 32)
    limit = 240 if tier == "quick" else 7200
    outs = ["%s/out%d.json" % (scratch, i) for i in range(n)]
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        res = list(ex.map(lambda i: run_shard(exe, i, n, tier, outs[i], limit, env, args), range(n)))
        # a shard out of time: up to two are run again with a longer limit before calling it a hang
        late = [i for i in range(n) if res[i][0] == "timeout"][:2]
        for i, r in zip(late, ex.map(lambda i: run_shard(exe, i, n, tier, outs[i], int(limit * 1.5), env, args), late)): res[i] = r
        # replay the deterministic explorations before reporting
        bad = [i for i in range(n) if res[i][1] and res[i][1]["violations"] and res[i][0] != "timeout"]
        again = dict(zip(bad, ex.map(lambda i: run_shard(exe, i, n, tier, outs[i] + ".again", limit, env, args), bad)))
    viol = []
    tot = dict(states=0, transitions=0, evals=0, nontrivial=0, traces=0, outcomes=0)
    samples, notes, mx, counts, known, exhaustive = [], [], {}, {}, {}, True
    for i, (rc, r, log, crash) in enumerate(res):
        if rc == "timeout":
            viol.append(("exploration does not terminate (call never returns)", "shard %d/%d\n%s" % (i, n, log[-2000:])))
            continue
        if r is None and rc == 98:
            viol.append(("a call into the library does not return", (crash or "") + "\n" + log[-6000:]))
            continue
        if r is None:
            viol.append(("the library crashed or aborted during the exploration (exit %s)" % rc, (crash or "") + "\n" + log[-6000:]))
            continue
        if rc not in (0, 1):
            viol.append(("abnormal end of the exploration (exit %s)" % rc, (crash or "") + "\n" + log[-6000:]))
        for k in tot: tot[k] += r[k]
        samples += r["samples"]; notes += [x for x in r["notes"] if x not in notes]
        for k, v in r["max"].items(): mx[k] = max(mx.get(k, 0), v)
        for k, v in r["counts"].items(): counts[k] = counts.get(k, 0) + v
        known.update(r["known"])
        exhaustive = exhaustive and r["exhaustive"]
        if r["violations"]:
            r2 = again[i][1] if i in again else None
            same = r2 is not None and [v["what"] for v in r2["violations"]] == [v["what"] for v in r["violations"]]
            for v in r["violations"]:
                viol.append((v["what"], v["replay"] + ("\n// reproduced identically on a second run" if same else
                             "\n// a second run of the same exploration did not report exactly the same (behaviour depends on uninitialised or global state)")))
    listed = known_findings(prop)
    for k, text in sorted(known.items()):
        if k in listed: print("KNOWN-FINDING: property=%s %s" % (prop, listed[k]))
        else: viol.append((text, text))
    cov = {"samples": samples[:8] or ["(none)"], "exhaustive": exhaustive and not viol,
           "distinct_outcomes": tot["outcomes"], "bound": P[prop][tier], "max_measured": mx, "counters": counts, "notes": notes}
    if cfg["level"] == "model_checking":
        cov.update(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["traces"])
        if tot["evals"]: cov["oracle_evaluations"] = tot["evals"]
    else:
        cov.update(evaluations=tot["evals"], distinct_nontrivial=tot["nontrivial"], rule=cfg.get("rule", ""))
        if tot["states"]: cov.update(states=tot["states"], transitions=tot["transitions"])
    if not viol and (tot["states"] + tot["evals"] == 0):
        print("nothing was explored"); return 2
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": cfg["level"],
          "coverage": cov, "assumptions": [P[prop]["note"]], "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open(VERIF + "/evidence/%s.json" % prop, "w"), indent=1)
    print("%s %s: states=%d transitions=%d evaluations=%d outcomes=%d build=%.1fs run=%.1fs %s" % (
        prop, tier, tot["states"], tot["transitions"], tot["evals"], tot["outcomes"], tb - t0, time.time() - tb,
        " ".join("%s=%.3g" % kv for kv in sorted(mx.items()))))
    if viol:
        os.makedirs(VERIF + "/replays", exist_ok=True)
        for i, (what, text) in enumerate(viol[:5]):
            path = "%s/replays/%s-%d.txt" % (VERIF, prop, i)
            with open(path, "w") as f:
                f.write("// property %s\n// %s\n%s\n" % (prop, what.replace("\n", "\n// "), text))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  " + what.split("\n")[0][:400])
        if len(viol) > 5: print("  ... %d violations in all" % len(viol))
        return 1
    return 0

main()
