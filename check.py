#!/usr/bin/env python3
"""check.py <property> [quick|thorough]      decide one property
check.py replay <replay file>             run one recorded violation again, printing its trace
check.py list"""
import json, os, sys, time, subprocess, hashlib
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + "/lib")
import plybuild
from checks import CHECKS

REPLAYS = VERIF + "/replays"
KNOWN = VERIF + "/known_findings.jsonl"


def env():
    e = dict(os.environ)
    for k in ("ASAN_OPTIONS", "LSAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS"):
        e.pop(k, None)
    e["LC_ALL"] = "C"
    e["TZ"] = "UTC"
    return e


def build(part):
    return plybuild.build_exe(
        part["name"], part.get("flavor", "asan"), part["srcs"], part.get("modules", ["runtime"]),
        extra_includes=part.get("extra_includes", ()), defines=part.get("defines", ()),
        libs=part.get("libs", ()), codegen=part.get("codegen", False), exclude=part.get("exclude", ()),
        engine=["mc.cpp"] + part.get("engine", []), harness_flags=None, ldflags=part.get("ldflags", ()))


def known_for(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            k = json.loads(line)
            if k["property"] == pid:
                out.append(k)
    return out


def main():
    if len(sys.argv) < 2:
        print(__doc__); return 2
    if sys.argv[1] == "list":
        for c in CHECKS: print(c, CHECKS[c]["title"])
        return 0
    if sys.argv[1] == "build":
        for pid in sys.argv[2:] or CHECKS:
            for part in CHECKS[pid]["parts"]: build(part)
        return 0
    if sys.argv[1] == "replay":
        r = json.load(open(sys.argv[2]))
        part = [p for p in CHECKS[r["property"]]["parts"] if p["name"] == r["part"]][0]
        exe = build(part)
        arg = r["scenario"] + ":" + ",".join(map(str, r["choices"]))
        e = env(); e["ASAN_OPTIONS"] = "symbolize=1"
        return subprocess.run([exe, "--tier", r["tier"], "--replay", arg], env=e).returncode
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    evf = VERIF + "/evidence/%s.json" % pid
    if os.path.exists(evf): os.remove(evf)
    known = known_for(pid)
    knownf = plybuild.BUILD + "/known-%s.txt" % pid
    os.makedirs(plybuild.BUILD, exist_ok=True)
    with open(knownf, "w") as f:
        for k in known: f.write("%s\t%s\n" % (k["scenario"], k["case"]))
    total_cap = 420.0 if tier == "quick" else float(os.environ.get("VERIF_CAP", "3000"))
    nparts = len(c["parts"])
    allsc, viol, knownhits = [], [], {}
    try:
        exes = [build(p) for p in c["parts"]]
    except plybuild.BuildError as e:
        print("BUILD-ERROR: property=%s" % pid)
        print(str(e)[-3000:])
        return 2
    tb = time.time() - t0
    nrep = 0
    for part, exe in zip(c["parts"], exes):
        out = plybuild.BUILD + "/out-%s-%s.json" % (pid, part["name"])
        if os.path.exists(out): os.remove(out)
        left = total_cap - (time.time() - t0)
        cap = max(20.0, left / max(1, nparts - c["parts"].index(part)))
        p = subprocess.run([exe, "--tier", tier, "--out", out, "--known", knownf, "--cap", "%.0f" % cap],
                           env=env(), stdin=subprocess.DEVNULL)
        if p.returncode not in (0, 1) or not os.path.exists(out):
            print("ENGINE-ERROR: %s ended with %d" % (part["name"], p.returncode))
            return 2
        r = json.load(open(out))
        for s in r["scenarios"]:
            s["part"] = part["name"]
            allsc.append(s)
        for f in r["findings"]:
            if f["known"]:
                for k in known:
                    if k["scenario"] == f["scenario"] and k["case"] == f["case"]:
                        knownhits[k["what"]] = knownhits.get(k["what"], 0) + 1
                continue
            nrep += 1
            rp = "%s/%s-%d.json" % (REPLAYS, pid, nrep)
            f2 = {"property": pid, "part": part["name"], "tier": tier, "scenario": f["scenario"],
                  "choices": f["choices"], "message": f["message"], "case": f["case"], "trace": f["log"].split("\n"),
                  "how": "python3 /verif/check.py replay %s" % rp}
            json.dump(f2, open(rp, "w"), indent=1)
            viol.append((rp, f))
    for what in sorted(knownhits):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    wall = time.time() - t0
    samples = []
    for s in allsc:
        samples += s["samples"][:1]
    samples = samples[:12] or ["none"]
    exhaustive = all(s["exhaustive"] for s in allsc)
    execs = sum(s["executions"] for s in allsc)
    cov = {"exhaustive": exhaustive, "samples": samples,
           "scenarios": [{k: s[k] for k in ("part", "name", "what", "executions", "steps", "states", "distinct_nontrivial",
                                            "redundant", "max_choices", "exhaustive", "wall_s")} for s in allsc],
           "build_s": round(tb, 1)}
    if c["level"] == "model_checking":
        cov["states"] = sum(s["states"] for s in allsc)
        cov["transitions"] = sum(s["steps"] for s in allsc)
        cov["traces_validated_against_impl"] = execs
        cov["rule"] = c["rule"]
    else:
        cov["evaluations"] = execs
        cov["distinct_nontrivial"] = sum(s["distinct_nontrivial"] for s in allsc)
        cov["rule"] = c["rule"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": c["level"], "coverage": cov,
          "assumptions": c.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(viol)}
    json.dump(ev, open(evf, "w"), indent=1)
    print("%s %s: %d executions, %d states, %d steps in %d scenarios, %s, %.1fs (build %.1fs)" %
          (pid, tier, execs, sum(s["states"] for s in allsc), sum(s["steps"] for s in allsc), len(allsc),
           "exhaustive" if exhaustive else "NOT exhaustive", wall, tb))
    if viol:
        for rp, f in viol[:3]:
            print("  scenario %s: %s" % (f["scenario"], f["message"]))
            if f["case"]: print("  case: %s" % f["case"])
            for l in f["log"].split("\n")[-12:]:
                if l: print("    " + l[:300])
        for rp, f in viol[:1]:
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
