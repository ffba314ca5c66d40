#!/usr/bin/env python3
"""dev tool: writes /verif/seeded/<id>/ from tools/seeds/*.py and confirms each in a scratch copy.
usage: seed.py [--check] [id ...]     SEED(id, prop, [(file, old, new)...], demo C++ source, needs, breaks)"""
import os, sys, subprocess, json, shutil, glob, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = {}
def SEED(id, prop, edits, demo, needs, breaks, flags="", setup=""): S[id] = (prop, edits, demo, needs, breaks, flags)
for f in sorted(glob.glob(V + "/tools/seeds/*.py")): exec(open(f).read())
HEAD = '#include <cstdio>\n#include <cmath>\n#include <cstdlib>\n#define REQUIRE(c) do { if (!(c)) { std::printf("failed: %s (line %d)\\n", #c, __LINE__); return 1; } } while (0)\n#define NEAR(a,b) REQUIRE(std::abs((a)-(b)) < 1e-6)\n'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def one(id, tests=True):
    prop, edits, demo, needs, breaks, flags = S[id]
    d = V + "/seeded/" + id; os.makedirs(d, exist_ok=True)
    scr = tempfile.mkdtemp(prefix="seed_"); r = scr + "/r"
    try:
        sh("cp -a /repo %s" % r)
        for f, old, new in edits:
            p = r + "/" + f; b = open(p, "rb").read(); crlf = b"\r\n" in b; t = b.decode("utf-8", "surrogateescape").replace("\r\n", "\n")
            assert t.count(old) == 1, "%s: %d occurrences of %r in %s" % (id, t.count(old), old, f)
            t = t.replace(old, new)
            open(p, "wb").write((t.replace("\n", "\r\n") if crlf else t).encode("utf-8", "surrogateescape"))
        diff = subprocess.run(["git", "-C", r, "diff", "--binary"], stdout=subprocess.PIPE).stdout
        open(d + "/patch.diff", "wb").write(diff)
        for f, old, new in edits:
            b0 = sh("git -C /repo show f3b4716:%s" % f).stdout.replace("\r\n", "\n").split("\n")
            rem = [l[1:].rstrip("\r") for l in diff.decode("utf-8", "replace").split("\n") if l[:1] == "-" and l[:3] != "---"]
            if not rem or any(l not in b0 for l in rem) and len(edits) == 1: return id, False, "not an original line: %r" % [l for l in rem if l not in b0]
        open(d + "/demo.cpp", "w").write(HEAD + demo + "\n")
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: the property holds on this input; 1: it does not\nD=$(cd "$(dirname "$0")" && pwd)\nT=$(mktemp -d)\ntrap \'rm -rf "$T"\' EXIT\nclang++ -std=c++20 -w -O1 %s -I. -include optional -include iostream "$D/demo.cpp" -o "$T/demo" || exit 3\ntimeout 60 "$T/demo"\n' % flags)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
        base = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--reverse"], stdout=subprocess.PIPE, text=True).stdout.split()[0]
        a = sh("cd /repo && bash %s/demo.sh" % d); b = sh("cd %s && bash %s/demo.sh" % (r, d))
        msg = "demo clean=%d patched=%d" % (a.returncode, b.returncode)
        ok = a.returncode == 0 and b.returncode == 1
        if not ok: msg += "\n" + a.stdout[-1500:] + b.stdout[-1500:]
        if ok and tests:
            o = scr + "/out.json"
            t = sh("unshare -Urm bash -c 'mount --bind %s /repo && bash /opt/vp/test.sh %s'" % (r, o))
            st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); ps = set(json.load(open(o))["passed"])
            msg += " tests missing: %s" % sorted(st - ps); ok = st <= ps
        c = ""
        if ok:
            env = dict(os.environ, GEOMC_REPO=r, VERIF_BUILD=scr + "/build", VERIF_EVID=scr + "/ev", VERIF_TIER="quick", VERIF_SEED="1")
            c = subprocess.run([V + "/check", prop, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in c.stdout.split("\n") if l.startswith("VIOLATION property=%s " % prop)]
            msg += "  check: rc=%d %s" % (c.returncode, "CAUGHT" if c.returncode == 1 and v else "*** MISSED ***")
        return id, ok, msg
    finally: shutil.rmtree(scr)
if __name__ == "__main__":
    import concurrent.futures as cf
    ids = [a for a in sys.argv[1:] if a[0] != "-"] or sorted(S)
    with cf.ThreadPoolExecutor(3) as ex:
        for id, ok, msg in ex.map(lambda i: one(i, "--notest" not in sys.argv), ids): print(id, S[id][0], "OK" if ok else "BAD", msg, flush=True)
