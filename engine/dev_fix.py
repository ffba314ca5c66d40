"""development helper: apply a small edit to /repo preserving line endings and commit it"""
import os, subprocess, sys
def edit(f, *pairs):
    p = os.environ.get("GEOMC_REPO", "/tmp/rw") + "/" + f
    s = open(p, newline='').read(); crlf = "\r\n" in s
    for a, b in pairs:
        if crlf: a = a.replace("\n", "\r\n"); b = b.replace("\n", "\r\n")
        assert s.count(a) == 1, (f, s.count(a), a)
        s = s.replace(a, b)
    open(p, "w", newline='').write(s)
def commit(msg): subprocess.check_call(["git", "-C", os.environ.get("GEOMC_REPO", "/tmp/rw"), "commit", "-qam", "fix: " + msg])
