"""Worker for determinism and isolation of the code generation: detw.py MODE SEED START COUNT PROGRESS TIER, MODE = graph|mech|process

graph, mech: one model is written in a random sequence of target languages (repetitions, failing calls and other models in between); every
set of files is compared byte for byte with the one a freshly entered model gives as its first code.  process: the same models are handled
by several processes with different hash seeds, memory layouts, environments and orders of the models; the files must be the same.
The line with the date is left out."""
import os, re, sys, glob, json, shutil, subprocess, tempfile, random, difflib, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import graphw, writerw, gprog
from writerw import Quiet
from worker import run, Fail, CaseTimeout, case_rng
import pymbs.symbolics as S
from pymbs.symbolics import VarKind

TYPES = ["py", "c", "f90", "m", "mo", "cs"]
GEN = {"py": "Python", "c": "C", "f90": "Fortran90", "m": "Matlab", "mo": "Modelica", "cs": "CSharp"}

def files(d):
    r = {}
    for f in sorted(glob.glob(d + "/*")):
        t = open(f, "rb").read().decode("latin-1")
        r[os.path.basename(f)] = re.sub(r".*generated by PyMbs on \d\d\d\d-.*", "(date)", t)
    return r

def difference(a, b):
    if sorted(a) != sorted(b): return "files", "%s and %s" % (sorted(a), sorted(b))
    for f in a:
        if a[f] != b[f]:
            d = [x for x in difflib.unified_diff(a[f].split("\n"), b[f].split("\n"), lineterm="", n=0)][2:]
            same = sorted(a[f].split("\n")) == sorted(b[f].split("\n"))
            return (f.split("_", 1)[-1] if "_" in f else f.split(".")[-1]) + (" lines in another order" if same else ""), "%s\n%s" % (f, "\n".join(d[:40]))
    return None

def wipe(d):
    for f in glob.glob(d + "/*"): os.remove(f)

class T1(writerw.C):                      # systems every target can write
    ops = [o for o in writerw.C.ops if o != "if"]

def write(fn, d):
    """files written by fn, or the refusal"""
    wipe(d)
    with Quiet() as q:
        try: fn(); e = ""
        except CaseTimeout: raise
        except (KeyboardInterrupt, SystemExit): raise
        except BaseException as ex: e = "%s: %s" % (type(ex).__name__, ex)
    r = files(d)
    r["(refused)"] = e
    r["(reported)"] = re.sub(r"(?m)^.*( s\b|econds|took|Time).*$", "", q.text) if "rror" in q.text else ""
    return r

def system(rng):
    """a random system; the graph can be built as often as wanted"""
    T = T1()
    P = writerw.make_prog(rng, T); P.ctl = []
    st = random.Random(rng.random()).getstate()
    opt = rng.random() < .5
    def fresh():
        r = random.Random(); r.setstate(st)
        g, B = writerw.build(P, r)
        with Quiet(): g.buildGraph(opt)
        return g
    return P, fresh, opt

def state_of(g):
    r = []
    for k in (VarKind.Der_State, VarKind.Sensor, VarKind.Graphics):
        try: r.append([str(k)] + ["%s=%s" % (a.lhs, a.rhs) for a in g.getAssignments(k)])
        except Exception as e: r.append([str(k), str(e)])
    for k in (VarKind.State, VarKind.Der_State, VarKind.Parameter, VarKind.Constant, VarKind.Input, VarKind.Sensor, VarKind.Graphics):
        r.append([str(k)] + [str(v) for v in g.getVariables(k)])
    r.append(["init"] + [str(g.getinitVal(v)) for v in g.getVariables(VarKind.State)])
    return r

KW = {"c": [{}, {}, {"include_visual": "True"}, {"pymbs_wrapper": "True"}], "f90": [{}, {}, {"pymbs_wrapper": "True"}]}

class Undefined(Exception): pass

def check_values(out, typ, g, P, d, name, pts, opt, hist):
    """the program in d computes what the system says"""
    T = writerw.TARGETS[typ]()
    G = writerw.Gp(); G.P, G.order, G.ctl = P, writerw.state_order(P), []
    G.sens = [n for n in P.order if P.vars[n][0] == "sen"]; G.vis = [n for n in P.order if P.vars[n][0] == "vis"]
    G.inputs = [x.p for x in P.ins]; G.shape = {n: P.vars[n][1] for n in P.order}
    try:
        try: T.load(d, name, G)
        except writerw.TooLong: return
        src = "after %s, optimised %s\n" % (hist, opt) + writerw.sources(d, T.files(name))
        for e0, ref, tol in pts:
            for part in ["der_state"] + (["sensors"] if G.sens else []) + (["visual"] if G.vis and T.has_visual else []):
                got = T.call(e0, part, G.order, False)
                names = ["der_" + n for n in G.order] if part == "der_state" else (G.sens if part == "sensors" else G.vis)
                writerw.compare(out, got, {n: ref[n] for n in names}, tol, typ + " " + part, src)
    finally: T.close()

def graph_case(out, rng, idx, tier):
    P, fresh, opt = system(rng)
    P.use_init = False
    pts = gprog.reference(P, rng)
    if not pts: out.inc("undefined programs"); return
    name = rng.choice(writerw.NAMES)
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        g, f, keep = fresh(), None, []
        if rng.random() < .3: keep.append(system(rng)[1]()); out.inc("models in between")
        f = fresh()
        before = state_of(g)
        if before != state_of(f): raise Fail("history", "the graph of the same model", "")
        hist, k, ran = [], 0, 0
        n = rng.randint(2, 5)
        while k < n:
            r = rng.random()
            if r < .12:
                with Quiet():
                    try: g.writeCode(rng.choice(["py", "f90", "m", "mo"]), name, d + "/no/such/dir"); raise Fail("accepted", "missing directory", "")
                    except (KeyboardInterrupt, SystemExit, CaseTimeout, Fail): raise
                    except BaseException: pass
                hist.append("(missing directory)"); out.inc("failing calls")
            elif r < .2:
                g2 = system(rng)[1]()
                write(lambda: g2.writeCode(rng.choice(TYPES), name, d), d)
                if rng.random() < .5: keep.append(g2)
                hist.append("(other model)"); out.inc("models in between")
            elif r < .25: state_of(g); hist.append("(looked at)")
            else:
                k += 1
                typ = rng.choice(TYPES + ["py", "f90", "c"]); kw = rng.choice(KW.get(typ, [{}]))
                exp = write(lambda: f.writeCode(typ, name, d, **kw), d)
                got = write(lambda: g.writeCode(typ, name, d, **kw), d)
                dif = difference(got, exp)
                if dif: raise Fail("history", "%s after %s: %s" % (typ, hist[-1] if hist else "nothing", dif[0]), "history %s, optimised %s\n%s" % (hist, opt, dif[1]))
                out.inc("comparisons", len(exp)); out.group("targets", typ)
                if exp["(refused)"]: raise Fail("refused", "%s: %s" % (typ, re.sub(r"\w*\d\w*", "#", exp["(refused)"])), str(hist))
                elif exp["(reported)"]: out.inc("reported")
                elif typ in writerw.TARGETS and not kw and (typ not in ("c", "f90") or ran < 2):
                    ran += typ in ("c", "f90")
                    dd = tempfile.mkdtemp(dir=os.getcwd())            # (a shared object is loaded once under one name)
                    for x in glob.glob(d + "/*"): shutil.copy(x, dd)
                    try: check_values(out, typ, g, P, dd, name, pts[:2], opt, hist); out.inc("programs run")
                    finally: shutil.rmtree(dd, ignore_errors=True)
                hist.append(typ)
        if len([x for x in hist if x[0] != "("]) > 1: out.inc("distinct")
        out.group("histories", " ".join([x for x in hist if x[0] != "("][:2]))
        out.sample({"idx": idx, "history": hist, "optimised": opt, "equations": len(P.eqs)})
    finally: shutil.rmtree(d, ignore_errors=True)

def mechanism(rng):
    import mechw
    from mechgen import good_model, add_loads
    m = good_model(rng, maxbodies=2, maxdof=2) if rng.random() < .7 else good_model(rng, maxbodies=3, maxdof=3)
    if rng.random() < .6: add_loads(rng, m, rng.choice([1, 2]))
    sg = mechw.SG(rng, m)
    for _ in range(rng.choice([0, 2, 4])): sg.add([k for k in mechw.SENS if k != "Graphic"])
    gen = rng.choice(mechw.gens_for(m, rng, .3)); o = mechw.opts_for(rng, gen); o.pop("simplify", None)
    return m, lambda: mechw.generate(m, gen, o, before=lambda L: [x["enter"](L) for x in m.loads + sg.list])

def run_py(L, m, d, name, rng_state, order):
    """values of the generated Python program at some states"""
    T = writerw.Py(); G = writerw.Gp(); G.P, G.ctl, G.order = None, [], ["q", "qd"]
    shapes = dict(m.inputs); shapes.update(getattr(m, "inputs2", {}))
    G.inputs = list(shapes); G.shape = {}
    rng = random.Random(); rng.setstate(rng_state)
    import mechw
    from mechgen import random_state, random_inputs
    r = []
    T.load(d, name, G)
    for _ in range(2):
        q, qd = random_state(rng, m.ndof()); inp = random_inputs(rng, m)
        if not mechw.far_apart(m, m.kin(q, qd, np.zeros(m.ndof()))): continue
        env = {"time": writerw.col(.37), "q": writerw.col(q[order]), "qd": writerw.col(qd[order])}
        for n, v in inp.items(): env[n] = writerw.col(v)
        x = {}
        for part in T.mods: x.update({part + " " + k: v for k, v in T.call(env, part, G.order, False).items()})
        r.append(x)
    return r

def mech_case(out, rng, idx, tier):
    import mechw
    m, fresh = mechanism(rng)
    name = rng.choice(writerw.NAMES)
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        L, F = fresh(), fresh()
        if state_of(L.w.graph) != state_of(F.w.graph): raise Fail("history", "the graph of the same model", "")
        order = mechw.state_order(L, m); st = rng.getstate()
        hist = []; first = None
        n = rng.randint(2, 4)
        seq = [rng.choice(TYPES) for _ in range(n)]; seq[rng.randrange(n)] = "py"
        if "py" not in seq[1:]: seq.append("py")
        ref = write(lambda: F.w.genCode.Python(name, d), d)
        if ref["(refused)"]: raise Fail("refused", "py " + ref["(refused)"], "")
        first = run_py(F, m, d, name, st, order)
        F = fresh()
        for typ in seq:
            if rng.random() < .2: state_of(L.w.graph); mechanism(rng)[1](); hist.append("(other model)")
            exp = write(lambda: getattr(F.w.genCode, GEN[typ])(name, d), d)
            got = write(lambda: getattr(L.w.genCode, GEN[typ])(name, d), d)
            dif = difference(got, exp)
            if dif: raise Fail("history", "%s after %s: %s" % (typ, hist[-1] if hist else "nothing", dif[0]), "history %s\n%s" % (hist, dif[1]))
            if exp["(refused)"] and typ != "mo": raise Fail("refused", typ + " " + exp["(refused)"], str(hist))
            if typ == "py":
                now = run_py(L, m, d, name, st, order)
                for x, y in zip(first, now):
                    if sorted(x) != sorted(y): raise Fail("history", "py: delivered", "%s: %s and %s" % (hist, sorted(x), sorted(y)))
                    for k in x:
                        u, v = np.asarray(x[k], float), np.asarray(y[k], float)
                        if u.shape != v.shape or not np.all((np.abs(u - v) <= 1e-6 * (1 + np.max(np.abs(u)))) | (np.isnan(u) & np.isnan(v))):
                            raise Fail("history", "py: value", "%s: %s = %s, before %s" % (hist, k, v.tolist(), u.tolist()))
                        out.inc("comparisons")
                out.inc("programs run")
            hist.append(typ); out.inc("comparisons", len(got)); out.group("targets", typ)
        out.inc("distinct")
        out.sample({"idx": idx, "history": hist})
    finally: shutil.rmtree(d, ignore_errors=True)

# ------------------------------------------------------------------------------------------------- several processes
def child(spec):
    """JSON spec: seed, case, order of the model numbers, directory"""
    junk = [bytearray((i * 37) % 5000 + 1) for i in range(spec["noise"])]
    del junk[::2]
    res = {}
    for k in spec["order"]:
        rng = case_rng(spec["seed"], "model %s" % spec["case"], k)
        dd = "%s/%s" % (spec["dir"], k)
        os.makedirs(dd)
        if k % 6 == 5:
            L = mechanism(rng)[1](); types = rng.sample(TYPES, 2)
            w = lambda t, e: getattr(L.w.genCode, GEN[t])("mdl", e)
        else:
            P, fresh, opt = system(rng); g = fresh(); types = rng.sample(TYPES, 3)
            w = lambda t, e: g.writeCode(t, "mdl", e)
        for t in types:
            e = dd + "/" + t; os.makedirs(e)
            r = write(lambda: w(t, e), e)
            with open(dd + "/" + t + ".json", "w") as f: json.dump(r, f)
    with open(spec["dir"] + "/done", "w") as f: f.write("ok")

def process_case(out, rng, idx, tier):
    n = 12
    seed = rng.getrandbits(32)
    top = tempfile.mkdtemp(dir=os.getcwd())
    runs = []
    try:
        for k in range(3):
            order = list(range(n))
            if k: rng.shuffle(order)
            env = dict(os.environ)
            env["PYTHONHASHSEED"] = str(rng.randint(0, 2**32 - 1)) if k else "0"
            if k == 1: env["MALLOC_PERTURB_"] = str(rng.randint(1, 255)); env["TZ"] = "Asia/Tokyo"
            if k == 2: env["PYTHONMALLOC"] = "malloc"; env["MALLOC_MMAP_THRESHOLD_"] = "4096"; env["LANG"] = env["LC_ALL"] = rng.choice(["C", "C.UTF-8", "POSIX"])
            d = "%s/run%d" % (top, k); os.makedirs(d)
            spec = {"seed": seed, "case": idx, "order": order, "dir": d, "noise": rng.choice([0, 100, 3000, 20000]) if k else 0}
            r = subprocess.run([sys.executable, os.path.abspath(__file__), "--child", json.dumps(spec)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=d, timeout=100)
            if not os.path.exists(d + "/done"): raise Fail("process", "exit %s" % r.returncode, r.stdout[-1500:])
            runs.append(d); out.inc("processes")
        for k in range(n):
            a = {f: json.load(open(f)) for f in sorted(glob.glob("%s/%d/*.json" % (runs[0], k)))}
            for d in runs[1:]:
                for f, x in a.items():
                    y = json.load(open(f.replace(runs[0], d, 1)))
                    dif = difference(x, y)
                    if dif: raise Fail("process", os.path.basename(f)[:-5] + ": " + dif[0], "model %d, %s\n%s" % (k, d, dif[1]))
                    out.inc("comparisons", len(x))
        out.inc("distinct"); out.inc("models", n)
    finally: shutil.rmtree(top, ignore_errors=True)

if __name__ == "__main__":
    if sys.argv[1] == "--child": child(json.loads(sys.argv[2])); os._exit(0)
    run("determinism " + sys.argv[1], {"graph": graph_case, "mech": mech_case, "process": process_case}[sys.argv[1]], sys.argv[2:])
