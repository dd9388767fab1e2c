"""writes /verif/MANIFEST.json from the registered harness cases (run by hand)"""
import importlib, json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path[:0] = [H, os.path.join(H, "harness")]
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
have = {}
for f in sorted(os.listdir(os.path.join(H, "harness"))):
    if f.startswith("h_") and f.endswith(".py"):
        for c in importlib.import_module(f[:-3]).CASES.cases:
            have.setdefault(c.prop, set()).add(c.engine)
TECH = {"exact": "symbolic execution of the real Python code over exact reals (trigonometric/algebraic normal form), obligations and path feasibility decided by z3, counterexamples replayed",
        "boxes": "symbolic execution of the real code in Taylor models over input boxes, bound obligations decided by z3, counterexamples replayed",
        "custom": "symbolic execution of the real code into SMT (integers/histories/uninterpreted functions), decided by z3, counterexamples replayed"}
NA = {}
p = os.path.join(H, "tools", "not_applicable.json")
if os.path.exists(p):
    NA = json.load(open(p))
checks = []
for q in props:
    i = q["id"]
    if i not in have or i in NA:
        continue
    eng = sorted(have[i])
    checks.append(dict(property=i, quick_cmd=f"./run.py {i} --tier quick", thorough_cmd=f"./run.py {i} --tier thorough",
                       technique="; ".join(TECH[e] for e in eng), level="model_checking",
                       level_note="Bounded symbolic verification: holds for every real-valued input within the bounds listed per case in the evidence file. "
                                  "Floats are read as exact reals, so rounding is outside; math/numpy are replaced by stand-ins (vsym/shims.py) that are trusted; astropy routes are outside."))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3, numpy, sympy, mpmath' && test -x /opt/venv/bin/python && test -x /opt/venv-stdlib/bin/python",
         checks=checks, not_applicable=[dict(property=q["id"], reason=NA.get(q["id"], "no check yet (work in progress)")) for q in props if q["id"] in NA or q["id"] not in have],
         notes="No hooks in /repo. See DESIGN.md.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print([c["property"] for c in checks])
