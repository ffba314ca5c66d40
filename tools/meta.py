"""The properties, in one place: writes properties.jsonl and MANIFEST.json (python3 tools/meta.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []; NA = []
def prop(id, title, statement, files, mech, over=("inputs",), text="", tests="", technique="value-graph equivalence (gated SSA value numbering of the LLVM IR, algebraic normal forms) against an independent specification term", note=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text or "every input of every covered type and dimension"),
                  why_tests_cant=tests or "It quantifies over every real (or integer) value of every argument; the existing tests sample a handful of points, or do not instantiate these members at all.",
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), technique=technique, note=note))
def na(id, reason, **k):
    prop(id, **k); NA.append(dict(property=id, reason=reason))

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ("technique", "note")}) + "\n")
    nas = {x["property"] for x in NA}
    NOTE = ("Decides the property for all real (integer: all machine) values of the inputs at the instantiated types and dimensions: floating-point rounding is abstracted to exact "
            "real arithmetic, and an obligation whose terms have no normal form in budget is reported undecided, not proved. A violation is a normal-form difference confirmed by a point at which the two terms differ. "
            "Trusts clang's lowering to IR, the IR reader and the rewriting rules.")
    m = dict(version=1, setup_cmd="./setup.sh", checks=[dict(property=p["id"], quick_cmd="./check %s quick" % p["id"], thorough_cmd="./check %s thorough" % p["id"],
             technique=p["technique"], level="other", level_note=p["note"] or NOTE) for p in P if p["id"] not in nas], not_applicable=NA)
    with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
    print(len(P), "properties", len(P) - len(NA), "claimed")
exec(open(os.path.join(V, "tools", "propmeta.py")).read())
main()
