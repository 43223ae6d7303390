"""setup_cmd: builds everything the checks use from /repo's current tree (the checks rebuild what changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vm import build
for m in ("plain", "asan"):
    print(m, build.build(m, ("symfuzz", "SympyWrapper")))
    print(m, build.package(m))
