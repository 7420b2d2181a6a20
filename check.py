#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property of /repo's current tree by static analysis and writes
evidence/PROPERTY.json.  Exit 0: held; 1: violated; 2: the check could not run.
"""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))


def known():
    """[(property, unit, obligation, text)]"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: "):
                d = dict(x.split("=", 1) for x in l[9:].split(" | ")[0].split(" ; "))
                out.append((d["property"], d["unit"], d.get("obligation", ""), l.split(" | ", 1)[1] if " | " in l else ""))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or (sys.argv[2] if len(sys.argv) > 2 else "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    import build
    import registry
    ev_path = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    try:
        b = build.ensure()
    except build.BuildError as e:
        print("error: " + str(e)[-3000:])
        return 2
    t1 = time.time()
    spec = registry.SPECS[prop]
    rows, cov = registry.run(prop, b, tier)
    refuted = [r for r in rows if r[2] == "refuted"]
    unknown = [r for r in rows if r[2] == "unknown"]
    proved = [r for r in rows if r[2] == "proved"]
    kn = known()
    bad, hits = [], []
    for r in refuted:
        k = [x for x in kn if x[0] == prop and x[1] == r[0] and (not x[2] or x[2] == r[1])]
        (hits if k else bad).append((r, k[0] if k else None))
    n_units = len({r[0] for r in rows})
    level = spec["level"]
    coverage = dict(cov)
    coverage["obligations"] = len(rows)
    coverage["discharged"] = len(proved)
    coverage["checker_cmd"] = "python3 check.py %s %s" % (prop, tier)
    coverage["trusted_base"] = spec.get("trusted", registry.TRUSTED)
    coverage["units"] = n_units
    coverage["rule"] = spec["rule"]
    coverage["undecided"] = ["%s: %s (%s)" % (r[0], r[1], r[4][:160]) for r in unknown[:60]]
    coverage["samples"] = ["%s: %s: %s (%d paths)" % (r[0], r[1], r[2], r[5]) for r in proved[:: max(1, len(proved) // 12)]]
    if level == "translation_validation":
        coverage["programs"] = cov.get("programs", n_units)
        coverage["disagreements_checked"] = len(rows)
    coverage.setdefault("explanation", spec["rule"])
    floor = spec.get("floor", 0)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
        "assumptions": spec.get("assumptions", []), "violations": len(bad),
        "build_s": round(t1 - t0, 2), "wall_s": round(time.time() - t0, 2),
    }
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    for r, k in hits:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, r[0], k[3]))
    print("%s: %d obligations, %d discharged, %d undecided, %d refuted (%.1fs)" % (prop, len(rows), len(proved), len(unknown), len(refuted), time.time() - t0))
    if bad:
        rp = os.path.join(VERIF, "evidence", prop + ".violation.txt")
        with open(rp, "w") as f:
            for r, _ in bad:
                f.write("%s\n  obligation: %s\n  where: %s\n  %s\n" % (r[0], r[1], r[3], r[4]))
        for r, _ in bad[:10]:
            print("  %s | %s | %s | %s" % (r[0], r[1], r[3], r[4][:400]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if len(proved) < floor:
        print("error: only %d obligations could be decided (expected at least %d)" % (len(proved), floor))
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
