"""Runner: decides one property, writes its evidence, prints the verdict."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build
from facts import Facts
from common import Ctx

EVID = os.path.join(build.VERIF, "evidence")
KNOWN = os.path.join(build.VERIF, "known_findings.txt")


def known(pid):
    out = set()
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                key = line.split("key=", 1)[1].split(" :: ", 1)[0].strip()
                out.add(key)
    return out


def analyse(pid, config, facts_path=None):
    path = facts_path or build.extract(config)
    try:
        facts = Facts(path)
    finally:
        if not facts_path:
            os.remove(path)
    if not facts.complete:
        raise build.BuildError("the facts are incomplete")
    mod = importlib.import_module("rules.%s" % pid.lower())
    ctx = Ctx(pid, facts, config)
    mod.check(ctx)
    return ctx


def main():
    t0 = time.time()
    if sys.argv[1] == "--setup":
        for c in build.CONFIGS:
            os.remove(build.extract(c))
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    facts_path = sys.argv[3] if len(sys.argv) > 3 else None
    os.makedirs(EVID, exist_ok=True)
    configs = ["all"] if tier == "quick" or facts_path else ["all", "default", "multi"]
    ctxs = []
    try:
        for c in configs:
            ctxs.append(analyse(pid, c, facts_path))
    except build.BuildError as e:
        print("ERROR: %s" % e)
        return 2
    kn = known(pid)
    viol, found = {}, {}
    for ctx in ctxs:
        for v in ctx.violations:
            (found if v["key"] in kn else viol).setdefault(v["key"], v)
    a = ctxs[0]
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "other",
        "coverage": {
            "explanation": a.explanation or "static analysis of the compiler's MIR of /repo's current source",
            "rules": a.rules,
            "obligations": sum(len(c.obligations) for c in ctxs),
            "discharged": sum(sum(1 for o in c.obligations if o["ok"]) for c in ctxs),
            "bodies_analysed": len(a.bodies), "call_sites_analysed": len(a.sites), "abstract_states": a.states,
            "entries": a.entries, "configurations": configs, "counts": a.counts,
            "samples": a.obligations[:60], "inconclusive": a.inconclusive,
            "known_findings_seen": sorted(found),
            "trusted_base": ["rustc nightly (type check, MIR construction)", "/verif/driver", "/verif/sa",
                             "semantics of std/tokio/serde as named in the rules"],
        },
        "assumptions": a.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k, v in sorted(found.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("%s: %d obligations in %d entries, %d bodies, %d call sites, %d abstract states" % (
        pid, ev["coverage"]["obligations"], len(a.entries), len(a.bodies), len(a.sites), a.states))
    for m in a.inconclusive:
        print("NOTE: %s" % m)
    if viol:
        rp = os.path.join(EVID, pid + ".violation.txt")
        with open(rp, "w") as f:
            for k, v in sorted(viol.items()):
                f.write("%s\n  key: %s\n  at: %s\n" % (v["msg"], k, v["span"]))
                for x in v["trail"]:
                    f.write("    %s\n" % x)
        for k, v in sorted(viol.items()):
            print("  [%s] %s (%s)" % (k, v["msg"], v["span"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
