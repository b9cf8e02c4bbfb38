#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property by static analysis of /repo's current source."""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 * 1024 * 1024)


def known():
    out = {"finding": {}, "fixed": []}
    for line in open(os.path.join(HERE, "known_findings.txt")):
        line = line.strip()
        if line.startswith("fixed: "):
            out["fixed"].append(line)
        elif line.startswith("finding: property="):
            head, _, what = line[len("finding: property="):].partition(" | ")
            pid, _, key = head.partition(" ")
            out["finding"].setdefault(pid, {})[key.strip()] = what.strip()
    return out


def main():
    from engine.build import dump, BuildError
    from engine.world import World, Report, Missing
    from engine.interp import AnalysisError
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    pid = a[0]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    t0 = time.time()
    mod = importlib.import_module("checks." + pid.lower())
    R = Report(pid)
    meta = {"functions": 0}
    try:
        d = dump()
        W = World(d)
        W.thorough = tier == "thorough"
        meta["functions"] = len(d["fns"])
        meta["mir_blocks"] = sum(len(f["blocks"]) for f in d["fns"].values())
        mod.check(W, R)
        eng = {"entry_points": sorted(k[0] for k in W._e)}
        for e in W._e.values():
            for k, v in e.I.stats.items():
                eng[k] = eng.get(k, 0) + v
        meta["abstract_interpretation"] = eng
    except BuildError as e:
        R.bad("build", "the library does not build", str(e)[-1500:])
    except Missing as e:
        R.bad("anchor", str(e), "a function or type of the public interface that the check starts from does not exist")
    except AnalysisError as e:
        R.bad("analysis", str(e), "the analysis cannot follow this construct, so the property is not established")
    except Exception as e:
        tb = traceback.format_exc()
        R.bad("analysis", type(e).__name__ + " " + tb.strip().splitlines()[-3].strip().split("/")[-1],
              "the analysis failed, so the property is not established:\n" + tb)
    kn = known()["finding"].get(pid, {})
    new = {k: v for k, v in R.viol.items() if k not in kn}
    old = {k: v for k, v in R.viol.items() if k in kn}
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    rules = {}
    for r, s, okk in R.obls:
        rules.setdefault(r, []).append((s, okk))
    doc = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": dict({
            "explanation": mod.EXPLANATION,
            "obligations": len(R.obls), "discharged": sum(1 for o in R.obls if o[2]),
            "rules": {r: {"instances": len(x), "discharged": sum(1 for y in x if y[1])} for r, x in rules.items()},
            "samples": R.samples[:12] + ["%s: %s" % (r, x[0][0]) for r, x in list(rules.items())[:12]],
            "instances": R.counts}, **meta),
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + COMMON,
        "violations": len(new), "known_findings": sorted(old), "wall_s": round(time.time() - t0, 2)}
    json.dump(doc, open(os.path.join(ev, pid + ".json"), "w"), indent=1, ensure_ascii=False)
    rep = os.path.join(ev, pid + ".violations.txt")
    if os.path.exists(rep):
        os.remove(rep)
    for k in sorted(old):
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[k]))
    print("%s: %d obligations, %d discharged, %d known findings, %d violations (%.1f s)" % (
        pid, len(R.obls), doc["coverage"]["discharged"], len(old), len(new), doc["wall_s"]))
    if new:
        with open(rep, "w") as f:
            for k in sorted(new):
                f.write("%s\n    %s\n" % (k, new[k]))
        for k in sorted(new)[:40]:
            print("  " + k + "\n      " + new[k][:1200])
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    return 0


COMMON = [
    "the MIR that the nightly compiler produces for the library means the same as the code the stable compiler generates",
    "external crates behave as their documentation says (their models are in engine/models.py)"]

rc = [1]


def go():
    rc[0] = main()


t = threading.Thread(target=go)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0])
