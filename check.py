#!/opt/venv/bin/python
"""Static analysis checks of MIMOSA: ``check.py <PROPERTY> [--tier quick|thorough]``.

Exit 0: no unlisted violation among what was decided (an INCONCLUSIVE line
says when nothing was).  Exit 1: a VIOLATION line.
"""
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa import registry  # noqa: E402


def known():
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    with open(p, encoding="utf8") as fh:
        for line in fh:
            line = line.rstrip("\n")
            if not line.startswith("KNOWN-FINDING: "):
                continue
            body = line[len("KNOWN-FINDING: "):]
            head, _, what = body.partition(" :: ")
            prop, _, key = head.partition(" key=")
            out[(prop[len("property="):], key.strip())] = what
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=("quick", "thorough"))
    ap.add_argument("--all", action="store_true", help="report every finding, do not stop at the first")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = a.property
    t0 = time.time()
    chk = registry.CHECKS[prop]
    registry.limit(t0, a.tier)
    res = registry.run(prop, a.tier)
    kf = known()
    vio, kn = {}, {}
    for f in res["findings"]:
        if prop not in f["props"]:
            continue
        if (prop, f["key"]) in kf:
            kn.setdefault(f["key"], f)
        else:
            vio.setdefault(f["key"], f)
    for key in kn:
        print(f"KNOWN-FINDING: property={prop} {kf[(prop, key)]}")
    for u in res["undecided"][:12]:
        print(f"UNDECIDED property={prop} {u[:300]}")
    if len(res["undecided"]) > 12:
        print(f"UNDECIDED property={prop} ... {len(res['undecided']) - 12} more")
    wall = time.time() - t0
    cov = dict(res["coverage"])
    cov["undecided"] = len(res["undecided"])
    cov["undecided_samples"] = res["undecided"][:10]
    ev = {
        "property": prop, "tier": a.tier, "seed": seed, "level": chk.level, "coverage": cov,
        "assumptions": res.get("assumptions", []) + chk.assumptions, "wall_s": round(wall, 2), "violations": len(vio),
    }
    edir = os.path.join(HERE, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    if vio:
        rep = os.path.join(edir, f"{prop}.violations.json")
        with open(rep, "w") as fh:
            json.dump({"property": prop, "command": f"/opt/venv/bin/python check.py {prop} --tier {a.tier}",
                       "violations": list(vio.values())}, fh, indent=1, default=str)
        for f in list(vio.values())[:10]:
            print(f"  rule {f['kind']}: {f['text'][:900]}")
            print(f"    at {f['where'] or '(no construct)'}; configuration {f['scenario'] or '-'}; when {f['path'][:500] or 'always'}")
            print(f"    key {f['key']}")
        print(f"VIOLATION property={prop} replay={os.path.relpath(rep, HERE)}")
        return 1
    done = cov.get("discharged", cov.get("obligations", 0))
    if not done and res["undecided"]:
        print(f"INCONCLUSIVE property={prop}: the analysis could not decide any obligation (no claim is made)")
        return 0
    print(f"OK property={prop} tier={a.tier} obligations={cov.get('obligations')} discharged={cov.get('discharged')} "
          f"undecided={len(res['undecided'])} wall={wall:.1f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
