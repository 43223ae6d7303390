"""Writes MANIFEST.json from the registry of checks and the property list."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vm import checks
T = {
 "S01": ("random operator programs with an independent evaluator as monitor", "values of every node against long-double reference arithmetic at sampled points"),
 "S02": ("random operator programs with a shape monitor", "shape of every node and refusal of ill-shaped pairs"),
 "S03": ("random operator programs with automatic differentiation as oracle", "partial, total and Jacobian derivatives at sampled points"),
 "S04": ("random expression pairs with value and structure oracle", "verdict of == and < against values and structure"),
 "S05": ("random substitutions with an independent evaluator as oracle", "value after substitution and symbols found by walking the tree"),
 "S06": ("AddressSanitizer and UndefinedBehaviorSanitizer under random and hostile programs", "memory and undefined behaviour in the code the workload reaches"),
 "S07": ("hostile random call sequences on the binding, plain and under sanitizers, with operand and reference-count monitors", "process survival, exception types, values of operands afterwards"),
}
try:
    from vm.checks import TECH
    T.update(TECH)
except ImportError: pass
NA = {}
try:
    from vm.checks import NOT_APPLICABLE as NA
except ImportError: pass
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
cs, na = [], []
for p in props:
    i = p["id"]
    if i in checks.REGISTRY:
        t, n = T[i]
        cs.append({"property": i, "quick_cmd": "python3 vm/check.py %s --tier quick" % i, "thorough_cmd": "python3 vm/check.py %s --tier thorough" % i,
                   "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "machinery for it is not built yet")})
m = {"version": 1, "setup_cmd": "python3 vm/setup.py", "checks": cs, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
print(len(cs), "checks", len(na), "not applicable")
