"""writes MANIFEST.json"""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import sys
sys.path.insert(0, ".")
from sa.check import RULES, QUICK, THOROUGH, ALL


def plats(p):
    q, t = QUICK.get(p, ("linux",)), THOROUGH.get(p, ALL)
    return ", ".join(q) + ("" if q == t else " (thorough: %s)" % ", ".join(t))


AI = "path-sensitive abstract interpretation of MIR"
T = {
    "C01": AI + " with a typestate of the source's waiters per lock span",
    "C02": AI + ": provenance of tick snapshots per lock span",
    "C03": AI + " of the reactor step: drain/mark/re-arm obligations per delivered event",
    "C04": AI + " of the reactor step: ownership of collected wakers on every path",
    "C05": AI + ": effect of dropping wait futures on the recorded waiters",
    "C06": AI + ": fixpoint over timer operations with ghost state",
    "C07": AI + ": fixpoint over timer operations with ghost registrations",
    "C08": AI + ": fixpoint over timer operations with ghost registrations",
    "C09": AI + ": fixpoint over timer operations with ghost registrations",
    "C10": AI + ": queue-operation typestate",
    "C11": AI + ": interval/order facts on deadlines at the OS wait",
    "C12": AI + " of block_on: notification typestate of parker, flags and reactor lock",
    "C13": AI + " of block_on and its unwinding paths: balance and result dataflow",
    "C14": AI + " of block_on, main loop and initialisation: hand-over typestate",
    "C15": "lock-order and effect analysis over the call graph (" + AI + ")",
    "C16": AI + ": registration typestate and ordering of deregistration and close",
    "C17": "exposure analysis of the type-checked crate (who can reach the handle's mutable side, what signatures give out, what is marked I/O-safe), and compile-fail witnesses with compiling twins",
    "C18": AI + " of every operation: retry/wait typestate",
    "C19": AI + " of every operation: callee identity and argument/result dataflow",
    "C20": AI + ": non-blocking typestate of every handle that reaches a registration",
    "C21": AI + " of connect: outcome typestate and creation flags",
    "C23": AI + " of the FreeBSD, macOS and Windows builds: call and argument dataflow of the registration types, and the registration rules of C01, C03, C16, C19 and C20",
    "C26": AI + " of all operations: reachability of panic sites",
    "C27": AI + " of the reactor's initialiser and of reactor_fd, and the call graph of what makes a poller",
    "C28": AI + " of all steps and operations: progress of every way round a loop",
    "C29": AI + " of every operation and its drop: suspension and removal typestate",
    "C30": AI + " of constructors, conversions and accessors: handle identity dataflow",
    "C22": "type-level witnesses (must-compile and must-not-compile programs)",
}
NOTE = {
    "other": "Every abstract path of the named functions, from symbolic entry states, to a fixpoint; unbounded histories enter through quantified entry states. "
             ""
             "Platforms analysed: PLAT. Trusts rustc's MIR (default features), the models of library functions (sa/models.py, models/) and the interpreter itself (sa/engine.py).",
    "types": "The type-checked crate decides (platforms: PLAT; witnesses on linux); the witnesses cover the listed programs and the implementations found in the type-checked crate. Trusts rustc.",
}
NA = {
    "C24": "Latency and fairness bounds are statements about wall-clock time and the OS scheduler, which no static argument on the source bounds. "
           "The logical part (no oversleeping, hand-over of the reactor) is claimed as C11 and C14.",
    "C25": "The byte stream is transported by the kernel's sockets; what the crate contributes (the right operation, with the caller's buffer, result returned unchanged, no retry after success) "
           "is claimed as C18 and C19, the end-to-end statement is about the kernel.",
}
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    if p in RULES:
        checks.append({"property": p, "quick_cmd": "python3 -m sa.check " + p, "thorough_cmd": "python3 -m sa.check %s thorough" % p, "technique": T[p],
                       "level": "other", "level_note": NOTE["types" if p in ("C17", "C22") else "other"].replace("PLAT", plats(p))})
    else:
        na.append({"property": p, "reason": NA.get(p, "not covered yet")})
m = {"version": 1, "setup_cmd": "bash tools/all.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the analysis needs no change to /repo. Repairs of genuine defects are the fix: commits listed in known-findings.txt."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
