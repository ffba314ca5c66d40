"""Builds the IR reader and the IR of witness translation units from /repo's current tree."""
import os, subprocess, hashlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GEOMC_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
LLVM = "/usr/lib/llvm-18/bin/"
def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **k)
class BuildError(Exception): pass
def irdump():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(V, "engine/irdump.cpp"); out = os.path.join(BUILD, "irdump")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src): return out
    fl = sh([LLVM + "llvm-config", "--cxxflags", "--ldflags"]).stdout.split()
    r = sh(["clang++", "-O1", src, "-o", out + ".tmp"] + fl + ["-fexceptions", "-lLLVM-18"])
    if r.returncode: raise BuildError("irdump: " + r.stderr[-2000:])
    os.replace(out + ".tmp", out)
    return out
BASE = ["-std=c++20", "-I" + os.path.join(V, "engine"), "-include", "optional", "-include", "iostream", "-w", "-fno-caret-diagnostics"]
OPT = ["-O2", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-fno-math-errno", "-gline-tables-only",
       "-fno-discard-value-names", "-fno-strict-aliasing", "-ftrivial-auto-var-init=pattern",
       "-mllvm", "-inline-threshold=1000000", "-mllvm", "-unroll-threshold=100000", "-mllvm", "-unroll-max-count=256"]
def compile_ir(src, tag, extra=(), defines=()):
    """-> path of the JSON dump"""
    os.makedirs(BUILD, exist_ok=True)
    bc = os.path.join(BUILD, tag + ".bc"); js = os.path.join(BUILD, tag + ".json")
    r = sh(["clang++"] + BASE + ["-I" + REPO] + OPT + list(extra) + ["-D" + d for d in defines] + ["-emit-llvm", "-c", src, "-o", bc])
    if r.returncode: raise BuildError("\n".join(l for l in r.stderr.split("\n") if "error:" in l or "note: in inst" in l)[:4000])
    with open(js, "w") as f:
        r = subprocess.run([irdump(), bc], stdout=f, stderr=subprocess.PIPE, text=True)
    if r.returncode: raise BuildError(r.stderr[-2000:])
    return js
def syntax(src, extra=()):
    return sh(["clang++"] + BASE + ["-I" + REPO, "-fsyntax-only"] + list(extra) + [src])
