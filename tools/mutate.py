#!/usr/bin/env python3
"""dev tool: mutation measurement of the checks.  usage: mutate.py clean | cover | run N SEED [prop-regex]
clean: records, for each property, a digest of every obligation's code and the source lines it was built from
cover: lists source lines of anchored files that no obligation was built from
run:   N random one-token changes on lines some obligation was built from; which property's obligations report them"""
import sys, os, re, json, glob, random, hashlib, subprocess, shutil, time, tempfile, pickle
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/engine")
T = "/tmp/mut"
def tus(registry, only=None):
    out = {}
    for p in sorted(registry.PROPS):
        if only and not re.match(only, p): continue
        out[p] = [(u, os.path.basename(u)[:-4]) for u in registry.units(p)]
    return out
def strip(d):
    if isinstance(d, dict): return {k: strip(v) for k, v in d.items() if k not in ("dbg", "line", "file")}
    if isinstance(d, list): return [strip(x) for x in d]
    return d
def refs(d, out):
    if isinstance(d, dict):
        if d.get("k") == "glob": out.add(d["v"])
        for v in d.values(): refs(v, out)
    elif isinstance(d, list):
        for x in d: refs(x, out)
def digest(js, lines=None):
    import vgcheck
    from vg import interp as I
    raw = json.load(open(js)); F = raw["functions"]; own = {}; ref = {}
    for f, d in F.items():
        own[f] = hashlib.md5(json.dumps(strip(d), sort_keys=True).encode()).hexdigest(); r = set(); refs(d, r); ref[f] = r
        if lines is not None:
            def walk(x):
                if isinstance(x, dict):
                    for y in x.get("dbg") or []: lines.add((y[0], y[1]))
                    for k, v in x.items():
                        if k != "dbg": walk(v)
                elif isinstance(x, list):
                    for y in x: walk(y)
            walk(d)
    G = raw.get("globals", {})
    gh = {g: hashlib.md5(json.dumps(strip(d), sort_keys=True).encode()).hexdigest() for g, d in (G.items() if isinstance(G, dict) else [])}
    M = I.Module(js); out = {}
    for n, i, s, sig in vgcheck.obligations(M):
        seen = set(); st = [i] + ([s] if s else [])
        while st:
            f = st.pop()
            if f in seen: continue
            seen.add(f); st += [x for x in ref.get(f, ()) if x not in seen]
        out[n] = (hashlib.md5("".join(sorted(own.get(f, "") + gh.get(f, "") for f in seen)).encode()).hexdigest(), i, s, sig)
    return out
def clean():
    import build, registry
    build.BUILD = T + "/clean"; build.irdump()
    import concurrent.futures as cf
    with cf.ProcessPoolExecutor(6) as ex:
        for p, r in ex.map(_clean1, [(p, u) for p, u in tus(registry).items()]): pickle.dump(r, open(T + "/clean_%s.pkl" % p, "wb")); print(p, len(r[0]), len(r[1]), flush=True)
def _clean1(a):
    p, us = a
    import build, registry
    build.BUILD = T + "/clean"; L = set(); D = {}
    for u, tag in us:
        js = build.compile_ir(u, tag, registry.FLAGS.get(tag, ())); D[tag] = digest(js, L)
        os.remove(js); os.remove(js[:-5] + ".bc")
    return p, (D, L)
def load():
    return {re.match(r".*clean_(\w+)\.pkl", f).group(1): pickle.load(open(f, "rb")) for f in sorted(glob.glob(T + "/clean_*.pkl"))}
def rel(f):
    m = re.search(r"(geomc/.*)$", f); return m and m.group(1)
def linemap(C):
    L = {}
    for p, (D, ls) in C.items():
        for f, n in ls:
            r = rel(f)
            if r and f.startswith("/repo"): L.setdefault((r, n), set()).add(p)
    return L
def cover():
    L = linemap(load())
    files = sorted({f for f, n in L})
    for f in files:
        src = open("/repo/" + f, errors="replace").read().split("\n"); com = False; un = []
        for i, l in enumerate(src, 1):
            s = l.strip()
            if s.startswith("/*"): com = True
            if com:
                if "*/" in s: com = False
                continue
            if not s or s.startswith("//") or s.startswith("#"): continue
            if re.search(r"[-+*/<>=]=?|return", re.sub(r"<[^<>]*>", "", s)) and s.endswith(";") and not re.match(r"(typedef|using|friend|static constexpr|static_assert|template|public)", s) and (f, i) not in L: un.append((i, s))
        print("%s: %d uncovered" % (f, len(un)))
        for i, s in un: print("   %4d %s" % (i, s[:110]))
OPS = [(r"(?<![<>=!+\-*/&|])<=(?!=)", ["<"]), (r"(?<![<>=!\-])>=(?!=)", [">"]), (r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r"==", ["!="]), (r"!=", ["=="]),
       (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + ", " / "]), (r" / ", [" * "]), (r"\+= ", ["-= "]), (r"-= ", ["+= "]), (r"\*= ", ["/= "]),
       (r"\band\b|&&", ["or"]), (r"\bor\b|\|\|", ["and"]), (r"\bnot |!(?=[\w(])", [""]), (r"std::min", ["std::max"]), (r"std::max", ["std::min"]), (r"std::abs", [""]), (r"\blo\b", ["hi"]), (r"\bhi\b", ["lo"]),
       (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])2(?![\w.])", ["3", "1"]), (r"(?<=[\[(, ])i(?=[\]), ])", ["0"]), (r"(?<=[( =])-(?=\w)", [""]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\.x\b", [".y"]), (r"\.y\b", [".x"]), (r"\bcos\b", ["sin"]), (r"\bsin\b", ["cos"]), (r"\+\+(?=\w)", ["--"]), (r"\brow\b", ["col"]), (r"\bROWS\b", ["COLS"]), (r"\brows\(\)", ["cols()"])]
def mutants(line):
    out = []
    code = line.split("//")[0]
    for rx, reps in OPS:
        for m in re.finditer(rx, code):
            for r in reps: out.append(line[:m.start()] + r + line[m.end():])
    return out
def one(a):
    k, f, n, new, props = a
    import build, registry, vgcheck
    d = tempfile.mkdtemp(prefix="m_", dir=T); t0 = time.time()
    try:
        subprocess.run(["cp", "-a", "/repo/geomc", d + "/geomc"])
        p = d + "/" + f; L = open(p, encoding="utf-8", errors="surrogateescape", newline="").read().split("\n"); old = L[n - 1]; L[n - 1] = new
        open(p, "w", encoding="utf-8", errors="surrogateescape", newline="").write("\n".join(L))
        env = dict(os.environ, GEOMC_REPO=d, VERIF_BUILD=d + "/build")
        r = subprocess.run([sys.executable, os.path.abspath(__file__), "eval", ",".join(props)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)
        return (f, n, old.strip(), new.strip(), r.stdout.strip().split("\n")[-1][:300], round(time.time() - t0))
    except Exception as e: return (f, n, "", new.strip(), "EXC %r" % e, 0)
    finally: shutil.rmtree(d)
def evalm(props):
    import build, registry, vgcheck
    os.makedirs(build.BUILD, exist_ok=True); shutil.copy2(T + "/clean/irdump", build.BUILD + "/irdump")
    os.utime(build.BUILD + "/irdump"); ch = 0; und = []
    for p in props:
        D, _ = pickle.load(open(T + "/clean_%s.pkl" % p, "rb"))
        for u, tag in [(u, os.path.basename(u)[:-4]) for u in registry.units(p)]:
            try: js = build.compile_ir(u, tag, registry.FLAGS.get(tag, ()))
            except build.BuildError as e: print("NOCOMPILE " + str(e).split("\n")[0][:200]); return
            N = digest(js); todo = []
            for n, (h, i, s, sig) in N.items():
                if D[tag].get(n, ("",))[0] != h: todo.append((js, n, i, s, dict(registry.OPTS.get(p, {}), seed=1), sig))
            ch += len(todo)
            vgcheck.MODS.clear()
            from vg import interp as I
            if todo: vgcheck.MODS[js] = I.Module(js)
            todo.sort(key=lambda t: t[1])
            random.Random(1).shuffle(todo)
            import multiprocessing as mp; t0 = time.time(); ctx = mp.get_context("fork")
            for t in todo:
                if time.time() - t0 > 300: und.append("budget"); break
                r, w = ctx.Pipe(False); q = ctx.Process(target=vgcheck.child, args=(w, t)); q.start(); w.close()
                if not r.poll(100): q.kill(); q.join(); und.append(t[1] + " time"); continue
                try: R = r.recv()
                except EOFError: und.append(t[1] + " died"); continue
                q.join()
                if any(x["status"] == "bad" for x in R["items"]): print("KILLED %s %s" % (p, t[1])); return
                if R["error"]: und.append(t[1] + " " + R["error"][:60])
                u2 = [x for x in R["items"] if x["status"] not in ("ok", "vacuous")]
                if u2: und.append(t[1] + " und:" + u2[0]["out"])
            os.remove(js)
    print(("SURVIVED changed=%d und=%d %s" % (ch, len(und), und[:3])) if ch else "UNCHANGED")
def run(n, seed, rx):
    C = load(); L = linemap(C); rnd = random.Random(seed)
    cand = [(f, i) for (f, i), ps in L.items() if f.startswith("geomc/") and any(re.match(rx, p) for p in ps)]
    byf = {}
    for f, i in sorted(cand): byf.setdefault(f, []).append(i)
    jobs = []; files = sorted(byf); rnd.shuffle(files); k = 0; tries = 0
    while len(jobs) < n and tries < 50 * n:
        tries += 1
        f = files[tries % len(files)]; i = rnd.choice(byf[f])
        src = open("/repo/" + f, encoding="utf-8", errors="surrogateescape", newline="").read().split("\n")[i - 1]
        if src.strip().startswith(("template", "//", "*", "#", "static_assert")): continue
        ms = mutants(src)
        if not ms: continue
        jobs.append((len(jobs), f, i, rnd.choice(ms), sorted(L[f, i])))
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(int(os.environ.get("MJ", "5"))) as ex:
        for r in ex.map(one, jobs): print("%s:%d  [%s] -> [%s]  %s  (%ds)" % r, flush=True)
if __name__ == "__main__":
    c = sys.argv[1]
    if c == "clean": clean()
    elif c == "cover": cover()
    elif c == "eval": evalm(sys.argv[2].split(","))
    elif c == "run": run(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4] if len(sys.argv) > 4 else ".")
