import sys, os, time, json, multiprocessing as mp, traceback, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from build import V

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    import registry
    if pid not in registry.PROPS: print("no such property " + pid); return 2
    return registry.PROPS[pid](pid, tier)
if __name__ == "__main__":
    try: rc = main()
    except build.BuildError as e:
        print("ANALYSIS-ERROR: the witness of this property no longer builds against the tree:\n" + str(e)); rc = 2
    except Exception:
        traceback.print_exc(); rc = 2
    sys.stdout.flush(); os._exit(rc)
