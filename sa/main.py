"""check driver:  python3 -m sa.main P01 [--tier quick|thorough]"""
import json
import os
import re
import sys
import time
import traceback
from . import rules
from .props import PROPS


def known():
    out = {}
    p = os.path.join(rules.HERE, "known_findings.txt")
    if os.path.isfile(p):
        for ln in open(p, encoding="utf-8"):
            m = re.match(r"^(P\d+)\s*\|\s*([^|]+?)\s*\|\s*([^|]+?)\s*\|\s*(.*)$", ln)
            if m:
                out.setdefault(m.group(1), {})[(m.group(2), m.group(3))] = m.group(4)
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    P = PROPS[prop]
    L = rules.Ledger(prop, tier)
    for step in P["run"]:
        try:
            step(L)
        except (rules.Missing, rules.Unsupported) as e:
            L.bad("anchor", str(e), "anchor missing or unreadable")
        except Exception as e:     # a source the analysis cannot digest fails closed
            L.bad("analysis", getattr(step, "__name__", "step"), "analysis could not be completed: %r\n%s" % (e, traceback.format_exc(limit=-4)))
    floor = P.get("floor", 1)
    if len(L.obl) < floor:
        L.bad("coverage-floor", "obligations", "only %d obligations were generated, at least %d expected" % (len(L.obl), floor))
    viol = L.violations()
    kn = known().get(prop, {})
    report, listed = [], []
    for o in viol:
        (listed if (o[0], o[1]) in kn else report).append(o)
    ev = os.path.join(rules.HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    rep = os.path.join(ev, "%s.violations.txt" % prop)
    by = {}
    for o in L.obl:
        by[o[0]] = by.get(o[0], 0) + 1
    cons = sorted({o[1] for o in L.obl})
    cov = {
        "explanation": P["explain"],
        "obligations_checked": len(L.obl),
        "obligations_met": len([o for o in L.obl if o[2]]),
        "by_rule": by,
        "constructs": len(cons),
        "files_analysed": sorted(L.files),
        "samples": (L.samples[:12] or cons[:12]),
        "notes": L.notes,
    }
    doc = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
           "wall_s": round(time.time() - t0, 3), "violations": len(report),
           "assumptions": P.get("assume", [])}
    with open(os.path.join(ev, "%s.json" % prop), "w") as f:
        json.dump(doc, f, indent=1)
    print("%s: %d obligations over %d constructs in %d files, %d violated (%.1fs)" % (
        prop, len(L.obl), len(cons), len(L.files), len(report), time.time() - t0))
    for o in listed:
        print("KNOWN-FINDING: property=%s %s %s: %s" % (prop, o[0], o[1], kn[(o[0], o[1])]))
    if report:
        with open(rep, "w") as f:
            for o in report:
                f.write("rule: %s\nconstruct: %s\nfinding: %s\n\n" % (o[0], o[1], o[3]))
        for o in report[:10]:
            print("  [%s] %s: %s" % (o[0], o[1], o[3][:400]))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    if os.path.exists(rep):
        os.remove(rep)
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
