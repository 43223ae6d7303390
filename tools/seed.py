"""Makes or re-checks planted bugs (/verif/seeded/<id>) in a scratch copy of /repo.

  seed.py make FILE     FILE defines  SEEDS = [dict(id, property, edits=[(path, old, new)], needs, breaks, demo)]
  seed.py check ID...   runs the property's own check against each planted bug
"""
import json, os, re, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WS = "/tmp/seedws/repo"; SRC = os.environ.get("REPO_SRC", "/repo")
PYB = "/opt/pymbs-venv/bin/python"
BASE = json.load(open("/opt/vp/BASELINE.json"))

def sh(cmd, **kw): return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def fresh():
    h = sh("git -C %s rev-parse HEAD" % SRC).stdout.strip()
    if not os.path.isdir(WS): os.makedirs(os.path.dirname(WS), exist_ok=True); sh("cp -a %s %s" % (SRC, WS))
    sh("git -C %s fetch -q %s HEAD; git -C %s reset -q --hard %s; git -C %s clean -fdq" % (WS, SRC, WS, h, WS))
    assert sh("git -C %s rev-parse HEAD" % WS).stdout.strip() == h

def sub(f, a, b, n=1):
    p = os.path.join(WS, f); s = open(p, encoding="latin-1", newline="").read()
    if "\r\n" in s: a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
    c = s.count(a)
    if c < 1 or (n and c != n): raise SystemExit("%s: %d occurrences of %r" % (f, c, a))
    open(p, "w", encoding="latin-1", newline="").write(s.replace(a, b))

def harness():
    """build.sh and test.sh with REPO pointing at the scratch copy"""
    d = "/tmp/seedws/vp"
    if not os.path.isdir(d):
        shutil.copytree("/opt/vp", d, ignore=shutil.ignore_patterns("cache"))
        for root, _, fs in os.walk(d):
            for f in fs:
                p = os.path.join(root, f)
                try: s = open(p).read()
                except UnicodeDecodeError: continue
                t = re.sub(r"/repo(?![a-z])", WS, s.replace("/opt/vp", d))
                if t != s: open(p, "w").write(t)
    return d

def build(): return sh(["bash", harness() + "/build.sh"])
def tests():
    r = sh(["bash", harness() + "/test.sh", "/tmp/seedws/out.json"])
    o = json.load(open("/tmp/seedws/out.json"))
    return sorted(set(BASE["stable"]) - set(o["passed"]))

def demo(sd):
    tmp = "/tmp/seedws/demo"; shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(sd, tmp, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    for f in os.listdir(tmp):
        p = os.path.join(tmp, f); s = open(p).read(); open(p, "w").write(re.sub(r"/repo(?![a-z])", WS, s))
    return sh(["bash", tmp + "/demo.sh"], cwd=WS, timeout=300)

def check(i):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    sd = "%s/seeded/%s" % (V, i)
    fresh(); a = sh("git -C %s apply %s/patch.diff" % (WS, sd))
    if a.returncode: return "patch does not apply: " + a.stdout
    r = sh([sys.executable, V + "/vm/check.py", m["property"], "--tier", "quick"], env=dict(os.environ, VERIF_REPO=WS, VERIF_SEED="1"))
    l = [x for x in r.stdout.splitlines() if x.strip()]
    fresh()
    return "%s %s %s | %s" % ("CAUGHT" if r.returncode == 1 and "VIOLATION property=" + m["property"] in r.stdout else "MISSED rc=%d" % r.returncode, i, m["property"], " / ".join(x[:150] for x in l[-4:]))

def original():
    """the lines the patch removes are lines of the first commit, none of our own"""
    root = sh("git -C %s rev-list --max-parents=0 HEAD" % WS).stdout.strip()[:12]
    f = None
    for l in sh("git -C %s diff -U0" % WS).stdout.splitlines():
        if l.startswith("--- a/"): f = l[6:].strip()
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
        if not m: continue
        a, n = int(m[1]), int(m[2] or 1)
        if n == 0: continue
        for b in sh("git -C %s blame -l -s --root -L %d,%d HEAD -- %s" % (WS, a, a + n - 1, f)).stdout.splitlines():
            if not b.lstrip("^").startswith(root): return f + " " + b[40:140]
    return None

def make(s):
    sd = "%s/seeded/%s" % (V, s["id"])
    fresh()
    for e in s["edits"]: sub(*e)
    o = original()
    if o: return "NOT AN ORIGINAL LINE " + o
    os.makedirs(sd, exist_ok=True)
    raw = subprocess.run("git -C %s diff" % WS, shell=True, stdout=subprocess.PIPE).stdout
    open(sd + "/patch.diff", "wb").write(raw)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(sd + "/meta.json", "w"), indent=1)
    open(sd + "/demo.sh", "w").write("""#!/bin/bash
# exits 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d); trap 'rm -rf "$S"' EXIT
cd "$S" && PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 QT_QPA_PLATFORM=offscreen MPLBACKEND=agg timeout 280 /opt/pymbs-venv/bin/python "$D/demo.py"
""")
    open(sd + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    b = build()
    if b.returncode: return "BUILD FAILED " + b.stdout[-1500:]
    d = demo(sd)
    if d.returncode == 0: return "DEMO PASSES WITH BUG " + d.stdout[-500:]
    t = tests()
    if t: return "TESTS FAIL " + str(t[:5])
    fresh(); build(); d2 = demo(sd)
    if d2.returncode: return "DEMO FAILS ON CLEAN TREE " + d2.stdout[-1500:]
    return "ok (bug: %s)" % d.stdout.strip().splitlines()[-1:] 

if __name__ == "__main__":
    if sys.argv[1] == "make":
        ns = {}; exec(open(sys.argv[2]).read(), ns)
        only = sys.argv[3:]
        for s in ns["SEEDS"]:
            if only and s["id"] not in only: continue
            r = make(s); print(s["id"], r, flush=True)
            if not r.startswith("ok"): shutil.rmtree("%s/seeded/%s" % (V, s["id"]), ignore_errors=True)
            else: print("   ", check(s["id"]), flush=True)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
        for i in ids: print(check(i), flush=True)
