"""Which witness units decide which property, and the rule each applies."""
import os, glob
from build import V
import vgcheck
FLAGS = {}      # witness file -> extra compiler flags
OPTS = {p: dict(hooks=dict(prune=True)) for p in ('M04', 'M05', 'L01', 'L02', 'L03', 'F04', 'P03')}       # witness file -> budget options of the decision procedure
OPTS['S05'] = OPTS['S07'] = dict(hooks=dict(prune=96))
OPTS['S06'] = dict(hooks=dict(prune=96), time=60)
for _p in ("C01", "C02", "C03", "C04"): OPTS[_p] = dict(hooks=dict(heap=True))
OPTS["P02"] = dict(hooks=dict(range=True))
OPTS["F02"] = dict(hooks=dict(skip=("_ImplPerlinInit",)))
FLAGS["F02"] = ("-fno-inline",)
MIN = {}        # property -> fewest obligations that must be decided for the run to count
RULE = "every output of the implementation has the same normal form as its specification term in every sign case"
def units(pid):
    """props/<pid>.cpp and props/<pid>_*.cpp"""
    return sorted(glob.glob(os.path.join(V, "props", pid + ".cpp")) + glob.glob(os.path.join(V, "props", pid + "_*.cpp")))
def valuegraph(pid, tier):
    tus = []
    for p in units(pid):
        tag = os.path.basename(p)[:-4]
        tus.append((p, tag, FLAGS.get(tag, ()), ("THOROUGH",) if tier == "thorough" else ()))
    return vgcheck.check(pid, tier, tus, OPTS.get(pid), minimum=MIN.get(pid, 1), rule=RULE)
PROPS = {}
for _p in glob.glob(os.path.join(V, "props", "*.cpp")):
    PROPS.setdefault(os.path.basename(_p)[:-4].split("_")[0], valuegraph)
def _lazy(mod):
    def run(pid, tier):
        import importlib
        return importlib.import_module(mod).check(pid, tier)
    return run
PROPS["T02"] = _lazy("dims")
PROPS["T01"] = _lazy("inst")
