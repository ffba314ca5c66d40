"""Evidence, known findings and the verdict lines."""
import json, os, time
from build import V
EV = os.environ.get("VERIF_EVID", os.path.join(V, "evidence"))
def known():
    out = {}
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"): continue
            a = dict(x.split("=", 1) for x in l.split(" ")[:2] if "=" in x)
            out.setdefault(a["property"], {})[a["at"]] = l.split(" ", 2)[2] if l.count(" ") > 1 else ""
    return out
def finish(pid, tier, t0, violations, coverage, level="other", minimum=1, decided=0, notes=()):
    """violations: list of dict(at, text). returns exit code"""
    kf = known().get(pid, {})
    new = [v for v in violations if v["at"] not in kf]
    old = [v for v in violations if v["at"] in kf]
    os.makedirs(EV, exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level, "coverage": coverage,
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if old: coverage["known_findings"] = ["%s: %s" % (v["at"], v["text"][:300]) for v in old]
    with open(os.path.join(EV, pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for n in notes: print(n)
    for v in old: print("KNOWN-FINDING: property=%s %s: %s" % (pid, v["at"], kf[v["at"]]))
    for v in new: print("VIOLATION property=%s replay=%s" % (pid, os.path.join(EV, pid + ".json"))); print("  at %s: %s" % (v["at"], v["text"]))
    if new:
        ev["coverage"]["violations"] = ["%s: %s" % (v["at"], v["text"][:600]) for v in new]
        with open(os.path.join(EV, pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        return 1
    if decided < minimum:
        print("ANALYSIS-ERROR: only %d obligations decided, at least %d expected" % (decided, minimum)); return 2
    return 0
