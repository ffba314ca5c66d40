"""Rewrites the `fixed:` section of known_findings.txt from the fix commits of /repo (python3 tools/fixed.py)."""
import subprocess, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [("V03", "c9b9080 9eb9fb3 842fb1d"), ("V04", "6b55a37"), ("V02", "c771d12"), ("V01", "45e1cd9"), ("Q01", "21e7bfc e869d7c a819961 d49b0ef d2644d6 bde5c88"),
 ("M01", "8d24217 90960d0 477ca30 a1ddc08 812b0de"), ("M06", "4db0432 cb8aae9 529d39e 1b73e5a"), ("M02", "23993ac"), ("M03", "bf80932 4a237c1 cb97d86"),
 ("I01", "641683d a7a1bf9 3e3e217 c73de2f"), ("M07", "ac54e7f 102a645 9027177 33e165b"), ("M04", "44d06af 44d06af"), ("L01", "4f4da47"), ("L03", "9d1d7d2"),
 ("M05", "cf5e5e6 5125d7f"), ("L02", "f8994db"), ("A01", "8902959 d69fdfd"), ("A02", "5792fee"), ("R01", "dfd39e3"), ("M04", "44d06af 633cfa1 37def3d 44e8a8f")]
exec(open(os.path.join(V, "tools", "fixmap.py")).read()) if os.path.exists(os.path.join(V, "tools", "fixmap.py")) else None
by = {}
for p, hs in MAP:
    for h in hs.split(): by[h[:7]] = p
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.strip().split("\n")
out = []
for l in log:
    h, m = l.split(" ", 1)
    if m.startswith("fix:"):
        p = by.get(h[:7])
        if not p: print("unmapped", l); continue
        out.append("fixed: property=%s %s %s" % (p, h, m[4:].strip()))
F = os.path.join(V, "known_findings.txt")
keep = [l for l in open(F).read().split("\n") if l and not l.startswith("fixed:")]
open(F, "w").write("\n".join(keep + out) + "\n")
print(len(out), "fixed entries")
