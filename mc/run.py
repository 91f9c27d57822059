#!/usr/bin/env python3
"""run.py <property> <quick|thorough>: builds from /repo's working tree, explores, writes evidence."""
import json, os, sys, time, shutil, subprocess, tempfile, hashlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from checks import CHECKS

VERIF = B.VERIF
EVID = os.path.join(VERIF, "evidence")

def known_findings(prop):
    """{(scenario-or-*, key): text} of this property"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(p): return out
    for line in open(p):
        line = line.strip()
        if not line or line.startswith("#") or line.startswith("fixed:"): continue
        # finding: property=<id> scenario=<name> key=<key> :: text
        if not line.startswith("finding:"): continue
        head, _, text = line.partition(" :: ")
        kv = dict(x.split("=", 1) for x in head.split()[1:] if "=" in x)
        if kv.get("property") == prop: out[(kv["scenario"], kv["key"])] = text
    return out

def main():
    prop, tier = sys.argv[1], sys.argv[2]
    chk = CHECKS[prop]
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    results = []
    for part in chk["parts"]:
        variant = part.get("variant", "std")
        kind = part.get("kind", "cpp")
        if tier == "quick" and part.get("thorough_only"): continue
        budget = part.get("budget_" + tier, {"quick": 500, "thorough": 7200}[tier])
        outf = os.path.join(EVID, ".%s.%s.%s.json" % (prop, part["harness"], variant))
        if os.path.exists(outf): os.unlink(outf)
        env = dict(os.environ); env.update(part.get("env", {}))
        if kind == "cpp":
            exe = B.build_harness(part["harness"], variant, part.get("flags", ()))
            cmd = [exe]
        else:
            cmd = [sys.executable, os.path.join(VERIF, "harness", part["harness"] + ".py")]
        tb = time.time()
        cmd += ["--tier", tier, "--out", outf, "--workers", os.environ.get("MC_WORKERS") or str(min(8, os.cpu_count() or 1)), "--budget", str(budget)]
        if "hang" in part: cmd += ["--hang", str(part["hang"])]
        if "scenario" in part: cmd += ["--scenario", part["scenario"]]
        scr = tempfile.mkdtemp(prefix="gmc.", dir=os.environ.get("TMPDIR", "/tmp"))   # everything the code under test writes stays here
        try: r = subprocess.run(cmd, stdout=subprocess.DEVNULL if kind == "cpp" else None, env=env, cwd=scr)
        finally: shutil.rmtree(scr, ignore_errors=True)
        if r.returncode != 0 or not os.path.exists(outf):
            sys.stderr.write("HARNESS-ERROR %s rc=%s\n" % (part["harness"], r.returncode)); sys.exit(3)
        res = json.load(open(outf)); os.unlink(outf)
        res["part"] = part["harness"] + ("" if variant == "std" else ":" + variant)
        res["cmd"] = cmd[:1]; res["build_s"] = round(tb - t0, 1)
        results.append(res)
    known = known_findings(prop)
    nviol = 0; seen_known = set()
    runs = sum(s["runs"] for r in results for s in r["scenarios"])
    trans = sum(s["transitions"] for r in results for s in r["scenarios"])
    nontriv = sum(s["nontrivial"] for r in results for s in r["scenarios"])
    states = sum(r["states"] for r in results); outcomes = sum(r["outcomes"] for r in results)
    for r in results:
        for v in r["violations"]:
            k = (v["scenario"], v["key"])
            if k in known:
                if k not in seen_known:
                    print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
                seen_known.add(k); continue
            nviol += 1
            name = "%s-%s-%s.json" % (prop, v["scenario"], hashlib.sha1(v["key"].encode()).hexdigest()[:8])
            path = os.path.join(EVID, "replays", name)
            v2 = dict(v); v2["property"] = prop; v2["tier"] = tier; v2["part"] = r["part"]
            v2["how_to_replay"] = "python3 /verif/mc/replay.py " + path
            json.dump(v2, open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s [%s] x%d: %s" % (v["scenario"], v["key"], v["count"], v["message"][:400]))
    capped = [r["part"] + ": " + r["capmsg"] for r in results if r["capped"]]
    samples = [s for r in results for s in r["samples"]][:12] or ["(none)"]
    cov = dict(states=states, transitions=trans, traces_validated_against_impl=runs,
               evaluations=runs, distinct_nontrivial=states if states else nontriv,
               nontrivial_executions=nontriv, distinct_outcomes=outcomes,
               rule=chk["rule"], samples=samples, exhaustive=not capped, caps=capped,
               scenarios=[dict(s, part=r["part"]) for r in results for s in r["scenarios"]],
               binding="every execution runs the code compiled from /repo's working tree; states are observed states of it")
    ev = dict(property=prop, tier=tier, seed=seed, level=chk.get("level", "model_checking"), coverage=cov,
              assumptions=chk.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=nviol)
    with open(os.path.join(EVID, prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: executions=%d transitions=%d states=%d outcomes=%d nontrivial=%d capped=%s violations=%d known=%d wall=%.1fs" %
          (prop, tier, runs, trans, states, outcomes, nontriv, bool(capped), nviol, len(seen_known), time.time() - t0))
    if runs == 0: sys.stderr.write("nothing explored\n"); sys.exit(3)
    sys.exit(1 if nviol else 0)

if __name__ == "__main__":
    main()
