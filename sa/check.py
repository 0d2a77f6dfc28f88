"""usage: python3 -m sa.check Cxx [quick|thorough]   -- analyse /repo's current source for one property

quick: the platforms the property's quick check covers; thorough: all platforms (see DESIGN.md)"""
import importlib
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(VERIF, ".build")
REPO = os.environ.get("SA_REPO", "/repo")

# property -> analyses (module, function) whose findings about it count
RULES = {
    "C01": [("rules_io", "analyse_waits"), ("rules_io", "analyse_react")],
    "C02": [("rules_io", "analyse_waits"), ("rules_io", "analyse_react")],
    "C03": [("rules_io", "analyse_react")],
    "C04": [("rules_io", "analyse_react")],
    "C05": [("rules_io", "analyse_waits")],
    "C06": [("rules_timer", "analyse_timer")],
    "C07": [("rules_timer", "analyse_timer")],
    "C08": [("rules_timer", "analyse_timer")],
    "C09": [("rules_timer", "analyse_timer")],
    "C10": [("rules_timer", "analyse_timer"), ("rules_timer", "analyse_step")],
    "C11": [("rules_timer", "analyse_step")],
    "C12": [("rules_driver", "analyse_driver")],
    "C13": [("rules_driver", "analyse_driver")],
    "C14": [("rules_driver", "analyse_driver"), ("rules_driver", "analyse_thread")],
    "C15": [("rules_locks", "analyse_locks")],
    "C16": [("rules_reg", "analyse")],
    "C17": [("rules_types", "analyse_safety")],
    "C18": [("rules_ops", "analyse_ops")],
    "C19": [("rules_ops", "analyse_ops"), ("rules_reg", "analyse")],
    "C20": [("rules_reg", "analyse")],
    "C21": [("rules_reg", "analyse")],
    "C22": [("rules_types", "analyse_auto")],
    "C23": [("rules_plat", "analyse")],
    "C26": [("rules_panic", "analyse")],
    "C27": [("rules_one", "analyse")],
    "C28": [("rules_bound", "analyse")],
    "C29": [("rules_ops", "analyse_ops"), ("rules_reg", "analyse"), ("rules_io", "analyse_waits"), ("rules_timer", "analyse_timer")],
    "C30": [("rules_reg", "analyse")],
}
ALL = ("linux", "freebsd", "windows", "macos")
# the platforms whose build of the crate is analysed: in the quick check (default: linux), and in the thorough one (default: all)
QUICK = {p: ALL for p in ("C16", "C17", "C18", "C19", "C20", "C21", "C27", "C29", "C30")}
QUICK["C23"] = ("freebsd", "windows")
THOROUGH = {"C22": ("linux",), "C23": ("freebsd", "windows", "macos")}

TRUSTED = [
    "rustc's MIR of the crate for the platforms named in the coverage (default features)",
    "the library models in sa/models.py and models/ (std, slab, polling, parking, concurrent-queue, async-lock)",
    "the abstract interpreter in sa/engine.py",
]


def known(pid):
    r = {}
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            if l.startswith("known: property=%s " % pid):
                k, _, what = l.split(" key=", 1)[1].partition(" ")
                r[k] = what.strip()
    except FileNotFoundError:
        pass
    return r


def dump(plat, out):
    from .common import PLATFORMS
    env = dict(os.environ)
    if plat == "linux":
        env["MIRDUMP_RMETA"] = out + ".d"
    t = PLATFORMS[plat].target
    subprocess.run(["bash", os.path.join(VERIF, "tools/dump.sh"), out] + ([t] if t else []), check=True, stdout=sys.stderr, env=env)


def analyse(job):
    """one platform: what was found and what was looked at"""
    pid, tier, plat, mir = job
    from .common import Ctx, Missing, PLATFORMS
    from .engine import Unsupported
    r = {"plat": plat, "errors": [], "fails": [], "obl": {}, "functions": [], "states": 0, "paths": 0, "built": False, "notes": ""}
    try:
        dump(plat, mir)
        r["built"] = True
        c = Ctx(mir, os.path.join(B, "models.json"), PLATFORMS[plat])
        c.tier, c.mir, c.rmeta = tier, mir, mir + ".d"
        for mod, fn in RULES[pid]:
            try:
                getattr(importlib.import_module("sa." + mod), fn)(c)
            except Missing as e:
                c.fail(pid, "missing:%s" % fn, "the rule cannot find what it is about: %s" % e)
            except Unsupported as e:
                r["errors"].append("%s on %s: not analysable: %s" % (fn, plat, e))
            except Exception as e:
                r["errors"].append("%s on %s: %r\n%s" % (fn, plat, e, traceback.format_exc()))
        r["fails"] = [json.loads(json.dumps(f, default=str)) for (p, _), f in sorted(c.fails.items(), key=lambda x: x[0]) if p == pid]
        r["obl"] = c.obl.get(pid, {})
        r["functions"] = sorted(set().union(getattr(c, "looked", ()), *[e.stats["functions"] for e in c.engines]))
        r["states"] = sum(e.stats["states"] for e in c.engines)
        r["paths"] = sum(e.stats["paths"] for e in c.engines)
        r["notes"] = getattr(c, "notes", {}).get(pid, "")
    except Exception as e:
        r["errors"].append("%s: %r" % (plat, e))
    finally:
        if os.path.exists(mir):
            os.unlink(mir)
        shutil.rmtree(mir + ".d", ignore_errors=True)
    return r


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    plats = THOROUGH.get(pid, ALL) if tier == "thorough" else QUICK.get(pid, ("linux",))
    subprocess.run(["bash", os.path.join(VERIF, "tools/setup.sh")], check=True, stdout=sys.stderr)
    jobs = [(pid, tier, p, os.path.join(B, "mir-%s-%s-%d.json" % (pid, p, os.getpid()))) for p in plats]
    if len(jobs) == 1:
        rs = [analyse(jobs[0])]
    else:
        with multiprocessing.get_context("fork").Pool(len(jobs)) as pool:
            rs = pool.map(analyse, jobs, 1)
    obl, fails, errors, undecided = {}, [], [], []
    for r in rs:
        obl.update(r["obl"])
        fails += r["fails"]
        # the property is about the platform at hand first: where another platform's build cannot be made or followed, that is recorded
        (errors if r["plat"] == "linux" or pid == "C23" else undecided).extend(r["errors"])
    kn = known(pid)
    new = [f for f in fails if f["key"] not in kn]
    if not obl and not fails and not errors:
        errors.append("no obligation of the property was met in the crate")
    fns = sorted(set().union(*[r["functions"] for r in rs]))
    cov = {
        "explanation": "Static analysis of the crate's MIR, regenerated from /repo on this run: path-sensitive abstract interpretation of the functions below from symbolic "
                       "entry states to a fixpoint (no execution, no solver); each rule is evaluated at every event of every abstract path. " + rs[0]["notes"],
        "rule": "; ".join("%s.%s" % r for r in RULES[pid]),
        "platforms": {r["plat"]: {"functions": len(r["functions"]), "abstract_states": r["states"], "abstract_paths": r["paths"], "obligations": len(r["obl"])}
                      for r in rs if r["built"]},
        "functions_analysed": len(fns),
        "functions": fns,
        "abstract_states": sum(r["states"] for r in rs),
        "abstract_paths": sum(r["paths"] for r in rs),
        "obligation_evaluations": sum(obl.values()),
        "obligations": obl and len(obl) or 0,
        "obligation_list": obl,
        "known_findings": sorted(k for k in kn if any(f["key"] == k for f in fails)),
        "errors": errors,
        "undecided": undecided,
    }
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other", "coverage": cov,
          "assumptions": TRUSTED, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for f in fails:
        if f["key"] in kn:
            print("KNOWN-FINDING: property=%s %s" % (pid, kn[f["key"]]))
    for e in errors:
        print("error: %s" % e, file=sys.stderr)
    for e in undecided:
        print("undecided: %s" % e, file=sys.stderr)
    if new:
        rp = os.path.join("evidence", pid + ".violation.json")
        with open(os.path.join(VERIF, rp), "w") as f:
            json.dump(new, f, indent=1, default=str)
            f.write("\n")
        for v in new:
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            print("  [%s] %s" % (v["key"], v["msg"]))
            if v.get("entry"):
                print("  in %s" % v["entry"])
            for x in v["path"][-25:]:
                print("    line %s: %s" % (x[0], x[1]) if isinstance(x, (tuple, list)) and len(x) == 2 else "    %s" % (x,))
        sys.exit(1)
    if errors:
        sys.exit(2)
    print("%s: %d obligations (%d evaluations) hold on %d abstract states" % (pid, len(obl), sum(obl.values()), cov["abstract_states"]))


if __name__ == "__main__":
    main()
