"""Runs every obligation of one or more witness units."""
import os, sys, gc, time, json, multiprocessing as mp, multiprocessing.pool, multiprocessing.connection, traceback, re
import build, report
from build import V
from vg import expr as E, norm as N, interp as I, prove as P
MODS = {}
def demangle(names):
    r = build.subprocess.run(["c++filt"], input="\n".join(names), stdout=build.subprocess.PIPE, text=True)
    return r.stdout.split("\n")[:len(names)]
def splitargs(s):
    out = []; d = 0; cur = ""
    for ch in s:
        if ch in "<([{": d += 1
        if ch in ">)]}": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
def obligations(mod):
    """(label, implementation, specification, parameter types): members impl/spec (or zero) of obligation structs"""
    fs = [f for f, d in mod.fns.items() if not d["decl"] and re.match(r"_ZN.*?4(impl|spec|zero)E", f)]
    dm = dict(zip(fs, demangle(fs))); by = {}
    for f in fs:
        m = re.match(r"(.*)::(impl|spec|zero)\((.*)\)$", dm[f])
        if not m or "geom::" in m.group(1).split("<")[0]: continue
        by.setdefault(m.group(1), {})[m.group(2)] = (f, splitargs(m.group(3)))
    out = []
    for k, d in sorted(by.items()):
        lab = re.sub(r"\b(\d+)[ul]+\b", r"\1", k).replace("geom::", "").replace(" ", "")
        if "zero" in d: out.append((lab, d["zero"][0], None, d["zero"][1]))
        else: out.append((lab, d["impl"][0], d["spec"][0], d["impl"][1]))
    return out
def work(a):
    js, name, impl, spec, opts, sig = a
    if js not in MODS: MODS[js] = I.Module(js)
    try:
        r = P.prove_pair(MODS[js], name, impl, spec, opts, sig)
    except Exception as e:
        r = P.PairResult(name); r.error = "internal: " + traceback.format_exc()[-600:]
    items = []
    for nm, res, wh in r.items:
        w = None
        if res.witness:
            env = {k: (str(v) if isinstance(v, (bool, int)) else P.mpmath.nstr(v, 8)) for k, v in sorted(res.witness[0].items()) if not k.startswith("vgu")}
            w = dict(inputs=env, got=res.witness[1], want=res.witness[2])
        items.append(dict(out=nm, status=res.status, cases=res.leaves, why=res.why, lhs=res.lhs, rhs=res.rhs, witness=w, where=wh, time=round(res.time, 2)))
    return dict(name=name, error=r.error, items=items, fns=sorted(r.fns), time=round(r.time, 2), instr=r.instr)
def run(tus, opts=None, jobs=8, only=None, verbose=False, budget=780):
    """tus: list of (source, tag, extra flags, defines)"""
    opts = opts or {}
    build.irdump()
    with mp.pool.ThreadPool(8) as tp: jss = tp.map(lambda t: build.compile_ir(t[0], t[1], t[2], t[3]), tus)
    tasks = []
    for t, js in zip(tus, jss):
        MODS[js] = I.Module(js)
        for n, i, s, sig in obligations(MODS[js]):
            if only and not re.search(only, n): continue
            tasks.append((js, n, i, s, opts, sig))
    t0 = time.time(); hard = opts.get("hard", 240)
    ctx = mp.get_context("fork"); gc.collect(); gc.freeze()
    # one process for each obligation, so that no verdict depends on what else was analysed before it
    res = [None] * len(tasks); todo = list(range(len(tasks)))[::-1]; live = {}; shown = 0
    def fail(i, why): res[i] = dict(name=tasks[i][1], error=why, items=[], fns=[], time=0, instr=0)
    while todo or live:
        while todo and len(live) < jobs and time.time() - t0 < budget:
            i = todo.pop(); r, w = ctx.Pipe(False)
            q = ctx.Process(target=child, args=(w, tasks[i]), daemon=True); q.start(); w.close(); live[r] = (i, q, time.time())
        for r in mp.connection.wait(list(live), timeout=1.0):
            i, q, _ = live.pop(r)
            try: res[i] = r.recv()
            except EOFError: fail(i, "the analysis of this obligation ended abnormally")
            r.close(); q.join()
        now = time.time(); over = now - t0 >= budget
        for r, (i, q, s) in list(live.items()):
            if over or now - s > hard:
                q.kill(); q.join(); r.close(); del live[r]; fail(i, "time budget of the check" if over else "time limit")
        if over:
            for i in todo: fail(i, "time budget of the check")
            todo = []
        while verbose and shown < len(res) and res[shown] is not None: show(res[shown]); shown += 1
    return res
def child(w, t):
    try: w.send(work(t))
    finally: w.close()
def show(r):
    st = {}
    for i in r["items"]: st[i["status"]] = st.get(i["status"], 0) + 1
    print("%-40s %6.2fs %s %s" % (r["name"], r["time"], st, r["error"] or ""))
    for i in r["items"]:
        if i["status"] not in ("ok", "vacuous"): print("     %s %s: %s\n        lhs %s\n        rhs %s\n        %s %s" % (i["status"], i["out"], i["why"][:1800], i["lhs"], i["rhs"], i["witness"], i["where"]))
    sys.stdout.flush()
def check(pid, tier, tus, opts=None, minimum=1, rule="", extra_cov=None, extra_viol=(), t0=None):
    t0 = t0 or time.time()
    opts = dict(opts or {})
    if tier == "thorough": opts["leaves"] = opts.get("leaves", 1500) * 6; opts["time"] = opts.get("time", 25) * 6; opts["hard"] = opts.get("hard", 240) * 6
    opts["seed"] = int(os.environ.get("VERIF_SEED", "1"))
    res = run(tus, opts, budget=780 if tier == "quick" else 6000)
    viol = list(extra_viol); und = []; ok = 0; cases = 0; fns = set()
    for r in res:
        for f in r["fns"]: fns.add("%s:%s" % (f[0].replace(build.REPO + "/", ""), f[1]))
        if r["error"]: und.append("%s: %s" % (r["name"], r["error"][:200]))
        bad = [i for i in r["items"] if i["status"] == "bad"]
        for i in r["items"]:
            cases += i["cases"]
            if i["status"] in ("ok", "vacuous"): ok += 1
            elif i["status"] != "bad": und.append("%s %s: %s" % (r["name"], i["out"], i["why"][:160]))
        if bad:
            i = bad[0]
            viol.append(dict(at=r["name"], text="output %s differs from its specification%s; built at %s; e.g. inputs %s give %s, specification gives %s; %s" % (
                ", ".join(b["out"] for b in bad[:6]), "", "; ".join(i["where"]) or "?", i["witness"] and i["witness"]["inputs"], i["witness"] and i["witness"]["got"], i["witness"] and i["witness"]["want"], i["why"][:200])))
    cov = {"explanation": "static analysis: value-graph (gated SSA) value numbering of the functions below against a specification term, rule: " + rule,
           "obligation_functions": len(res), "obligations_discharged": ok, "sign_cases": cases, "undecided": und[:40], "undecided_count": len(und),
           "violating": len(viol), "functions_analysed": sorted(fns)[:300], "function_count": len(fns), "ir_instructions": sum(r["instr"] for r in res)}
    cov.update(extra_cov or {})
    return report.finish(pid, tier, t0, viol, cov, minimum=minimum, decided=ok,
        notes=["%s: %d functions under obligation, %d outputs proved equal to the specification, %d undecided, %d violating, %d sign cases, %d geomc functions" % (pid, len(res), ok, len(und), len(viol), cases, len(fns))] + ["  undecided: " + u for u in und[:10]])
if __name__ == "__main__":
    src = sys.argv[1]; only = sys.argv[2] if len(sys.argv) > 2 else None
    import registry
    tag = os.path.basename(src).replace(".cpp", "")
    t = time.time()
    try: build.compile_ir(src, "dbg_" + tag, registry.FLAGS.get(tag, ()))
    except build.BuildError as e: print("BUILD", e); sys.exit(2)
    res = run([(src, "dbg_" + tag, registry.FLAGS.get(tag, ()), ())], registry.OPTS.get(tag, {}), only=only, verbose=True)
    n = sum(len(r["items"]) for r in res)
    print("outputs", n, "ok", sum(i["status"] == "ok" for r in res for i in r["items"]), "time", time.time() - t)
