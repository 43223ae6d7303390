"""python3 vm/check.py ID [--tier quick|thorough] [--seed N]"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    for i, x in enumerate(a):
        if x == "--tier": tier = a[i + 1]
        if x == "--seed": seed = int(a[i + 1])
    from vm import checks, build
    try:
        rc = checks.REGISTRY[pid](pid, tier, seed)
    except build.BuildError as e:
        print("INCONCLUSIVE property=%s the tree does not build: %s" % (pid, e)); rc = 4
    sys.exit(rc)
main()
