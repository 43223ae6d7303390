"""Worker for the visualisation (M09): visw.py MODE SEED START COUNT PROGRESS TIER, MODE = visual|scene

visual: random mechanisms carrying visualisation objects of every type; the generated visual module is called at random states and every
position and orientation compared with independent kinematics; the objects the model holds are compared with what was entered.
scene: the same models are shown: MbsSystem.show runs to the end in a child process on an off-screen platform, sliders are moved, and the
points of every actor's geometry, carried to the world by the actor's matrix, are compared with the shape drawn at the reference pose."""
import os, sys, shutil, tempfile, importlib, itertools, json, struct
os.environ["QT_QPA_PLATFORM"] = "offscreen"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import worker
from worker import Fail
from mech import *
from mechgen import *
from mechw import generate, describe, state_order, gens_for, opts_for
import loopw
from loopw import Closed, Degenerate
from pymbs.symbolics import VarKind
np.seterr(all="ignore")
_n = itertools.count()
VERT = [(0., 0., 0.), (2., 0., 0.), (0., 3., 0.), (0., 0., 1.5)]
FACES = [(0, 2, 1), (0, 1, 3), (0, 3, 2), (1, 2, 3)]

def stl(f, binary):
    if binary:
        with open(f, "wb") as o:
            o.write(b"binary".ljust(80) + struct.pack("<I", len(FACES)))
            for t in FACES: o.write(struct.pack("<12fH", *([0., 0., 1.] + [x for k in t for x in VERT[k]]), 0))
        return
    with open(f, "w") as o:
        o.write("solid s\n")
        for t in FACES: o.write("facet normal 0 0 1\nouter loop\n" + "".join("vertex %g %g %g\n" % VERT[k] for k in t) + "endloop\nendfacet\n")
        o.write("endsolid s\n")
def obj(f):
    with open(f, "w") as o:
        for v in VERT: o.write("v %g %g %g\n" % v)
        for t in FACES: o.write("f %d %d %d\n" % tuple(k + 1 for k in t))

def shape(rng):
    """(method, keyword arguments, attributes of the stored object)"""
    v = lambda: rng.choice([round(rng.uniform(.1, 4), 3), rng.randint(1, 4), .5])
    k = rng.choice(["Box", "Cylinder", "Sphere", "Line", "Frame", "Arrow", "File"])
    opt = lambda d: {n: x for n, x in d.items() if rng.random() < .8}
    if k == "Box":
        a = opt(dict(length=v(), width=v(), height=v())); return k, a, dict(lx=a.get("length", 1.), ly=a.get("width", 1.), lz=a.get("height", 1.))
    if k == "Cylinder":
        a = opt(dict(radius=v(), height=v(), res=rng.choice([6, 12, 20]))); return k, a, dict(radius=a.get("radius", 1.), l=a.get("height", 1.), res=a.get("res", 20))
    if k == "Sphere":
        a = opt(dict(radius=v(), res=rng.choice([8, 20]))); return k, a, dict(radius=a.get("radius", 1.), res=a.get("res", 50))
    if k == "Line":
        a = opt(dict(length=v())); return k, a, dict(length=a.get("length", 1.))
    if k in ("Frame", "Arrow"):
        a = opt(dict(size=v())); return k, a, dict(size=a.get("size", 1.))
    f = os.path.abspath(rng.choice(["Part.stl", "p1.STL", "p2.obj", "bin.stl", "Wheel.obj", "rim.OBJ", "Sub Dir/Part.stl", "Sub Dir/seat 1.obj", "bin2.stlb"]))
    os.makedirs(os.path.dirname(f), exist_ok=True)
    if f.lower().endswith("obj"): obj(f)
    else: stl(f, "bin" in f)
    a = opt(dict(scale=rng.choice([1, .001, 2.5, v()]))); return k, dict(a, fileName=f), dict(path_to_file=f, scale=a.get("scale", 1.))

def model(rng, tier):
    if rng.random() < .3:
        for _ in range(40):
            m = loopw.make(rng, tier); C = Closed(m)
            try: C.order()
            except ValueError: continue
            if len(C.ind) <= 4: return m, C
    return good_model(rng, maxbodies=rng.choice([2, 3, 4]), maxdof=rng.choice([1, 2, 4])), None

def build(rng, tier, start=False):
    m, C = model(rng, tier)
    objs = []; used = set()
    for _ in range(rng.choice([1, 3, 5, 8])):
        k, a, att = shape(rng); bf = any_frame(rng, m, .15); kw = dict(a)
        if k not in ("Frame", "Arrow") and rng.random() < .5: kw["color"] = rng.choice([[.7, .3, .1], (0., 1., 0.), [0, 0, 1]])
        if rng.random() < .5:
            n = rng.choice(["vis%d", "Shape_%d", "a%d_body"]) % len(objs); kw["name"] = n
        objs.append(dict(kind=k, at=bf, kw=kw, att=att))
    gen = rng.choice(gens_for(m, rng, .3 if len(m.bodies) < 3 and not C else 0) if not (C and any(c["kind"] != "FourBar" for c in m.closed)) else ["Recursive"])
    o = opts_for(rng, gen)
    if rng.random() < .25: o["kinematicsOnly"] = True
    late = rng.random() < .5
    def before(L):
        if late and C: [c["enter"](L, c["name"]) for c in m.closed]
        for x in objs:
            old = dict(L.w.graphRepDict)
            getattr(L.w.addVisualisation, x["kind"])(L.at(x["at"]), **x["kw"])
            new = [n for n in L.w.graphRepDict if n not in old]
            if len(new) != 1: raise Fail("objects", x["kind"], "%s new objects" % new)
            x["name"] = new[0]
        if not late and C: [c["enter"](L, c["name"]) for c in m.closed]
    L = generate(m, gen, o, before=before)
    info = "gen %s opts %s objects %s model %s" % (gen, o, objs, json.dumps(describe(m), default=str))
    if C: jn = {L.joint[c].name: i for i, c in enumerate(m.coords())}; perm = [C.ind.index(jn[str(x)[2:]]) for x in L.w.state.q]
    else: perm = state_order(L, m)
    for x in objs:                                             # what was entered is what the model holds
        g = L.w.graphRepDict[x["name"]]
        if type(g).__name__ != x["kind"]: raise Fail("objects", "type", "%s for %s; %s" % (type(g).__name__, x["kind"], info))
        for a, v in list(x["att"].items()) + [("color", x["kw"].get("color"))]:
            w = getattr(g, a)
            if not (w == v or (isinstance(v, (list, tuple)) and list(w) == list(v))): raise Fail("objects", "%s of %s" % (a, x["kind"]), "%r instead of %r; %s" % (w, v, info))
        if "name" in x["kw"] and x["name"] != x["kw"]["name"]: raise Fail("objects", "name", "%s; %s" % (x["name"], info))
    return m, C, L, perm, objs, gen, o, info

def pose(m, C, perm, qs):
    n = len(perm); q = np.empty(n); q[perm] = qs
    if C: q, qd, J = C.solve(q, np.zeros(n))
    return m.kin(q, np.zeros(m.ndof()), np.zeros(m.ndof()))

def states(rng, C, n, k):
    for _ in range(k):
        if C: yield np.array([rng.uniform(-1.5, 1.5) for _ in range(n)])
        else: yield np.asarray(random_state(rng, n)[0], float)

def visual(out, rng, idx, tier):
    m, C, L, perm, objs, gen, o, info = build(rng, tier)
    nm = "v%d_%d" % (os.getpid(), next(_n)); d = os.path.abspath(nm); os.mkdir(d)
    with quiet(): L.w.genCode.Python(nm, d)
    sys.path.insert(0, d); importlib.invalidate_caches(); sys.dont_write_bytecode = True
    try: f = getattr(importlib.import_module(nm + "_visual"), nm + "_visual")
    except ImportError as e: raise Fail("visual", "no visual module", "%s; %s" % (e, info))
    finally: sys.path.remove(d)
    shutil.rmtree(d)
    want = sorted(p + x["name"] for x in objs for p in ("r_", "T_"))
    for qs in states(rng, C, len(perm), 6):
        try: F = pose(m, C, perm, qs)
        except Degenerate: continue
        y = np.concatenate([qs, [rng.uniform(-1, 1) for _ in qs]]) if rng.random() < .5 else qs
        if rng.random() < .3: y = list(y)
        v = f(y)
        if sorted(v) != want: raise Fail("visual", "delivered", "%s instead of %s; %s" % (sorted(v), want, info))
        for x in objs:
            A = m.at(F, x["at"])
            r, T = v["r_" + x["name"]], v["T_" + x["name"]]
            if np.shape(r) != (3, 1): raise Fail("visual", "shape of a position", "%r at %s; %s" % (r, qs, info))
            T = np.eye(3) if isinstance(T, int) and T == 1 else np.asarray(T, float)
            e = max(np.max(np.abs(np.asarray(r, float).ravel() - A.r)), np.max(np.abs(T - A.R)) if T.shape == (3, 3) else 9.)
            if not e < 1e-8 * (1 + np.max(np.abs(A.r))):
                raise Fail("visual", "%s %s%s" % (gen, "position" if T.shape == (3, 3) and np.max(np.abs(T - A.R)) < 1e-8 else "orientation", " loop" if C else ""),
                           "%s at %s: r %s T %s instead of %s %s; %s" % (x["name"], qs.tolist(), np.ravel(r).tolist(), T.tolist(), A.r.tolist(), A.R.tolist(), info))
            out.inc("comparisons"); out.group("objects", x["kind"])
        out.inc("states")
    out.inc("distinct"); out.group("generators", gen + (" loop" if C else "") + (" kinematics" if o.get("kinematicsOnly") else ""))
    out.sample({"objects": [x["kind"] for x in objs], "dofs": [j["dofs"] for j in m.joints], "idx": idx})

# ------------------------------------------------------------------ shown
def geometry(x, P):
    """P: points of the drawn geometry in the coordinates of its frame -> message if they are not those of the shape"""
    a = x["att"]; k = x["kind"]; big = lambda v: 2e-6 * (1 + abs(v))
    near = lambda u, v: np.max(np.abs(np.asarray(u) - np.asarray(v))) < 2e-5 * (1 + np.max(np.abs(v)))
    def has(pts):
        for p in pts:
            if np.min(np.linalg.norm(P - np.array(p), axis=1)) > 2e-5 * (1 + np.max(np.abs(P))): return "no point at %s" % (list(p),)
    lo, hi = P.min(axis=0), P.max(axis=0)
    if k == "Box":
        h = np.array([a["lx"], a["ly"], a["lz"]]) / 2.
        return None if near(lo, -h) and near(hi, h) else "extends from %s to %s" % (lo, hi)
    if k == "Sphere":
        r = np.linalg.norm(P, axis=1); return None if near(r, a["radius"] * np.ones(len(r))) and near(hi[2], a["radius"]) else "radius %s to %s" % (r.min(), r.max())
    if k == "Cylinder":
        r = np.hypot(P[:, 0], P[:, 2]); r = r[r > .2 * a["radius"]]
        return None if near(r, a["radius"] * np.ones(len(r))) and near(hi[1], a["l"] / 2.) and near(lo[1], -a["l"] / 2.) else "radius %s to %s, from %s to %s" % (r.min(), r.max(), lo, hi)
    if k == "Line": return has([(0, 0, 0), (a["length"], 0, 0)]) or (None if near(lo, [0, 0, 0]) and near(hi, [a["length"], 0, 0]) else "extends from %s to %s" % (lo, hi))
    if k == "Frame": s = a["size"]; return has([(0, 0, 0), (s, 0, 0), (0, s, 0), (0, 0, s)]) or (None if near(hi, [s] * 3) else "extends to %s" % hi)
    if k == "Arrow": return None if near(lo[0], 0) and near(hi[0], a["size"]) and np.max(np.abs(P[:, 1:])) < .2 else "extends from %s to %s" % (lo, hi)
    s = float(a["scale"]); return has([[s * c for c in v] for v in VERT]) or (None if near(hi, [2 * s, 3 * s, 1.5 * s]) else "extends to %s" % hi)

def show(L, name, moves):
    """runs show() in this (child) process and returns, for every pose of the sliders, the points of every actor in the world"""
    import pymbs.ui.gui as G
    from vtkmodules.util.numpy_support import vtk_to_numpy
    from PySide6.QtWidgets import QApplication
    res = []
    def drive(*a):
        app = QApplication.instance()
        gui = [g for g in QApplication.topLevelWidgets() if isinstance(g, G.Gui)][0]
        gui.updateSceneTimer.stop()
        bars = {s.name: s for s in gui.sliders}
        for step in [None] + moves:
            if step == "reset": gui.resetButton.click()
            elif step:
                for n, v in step.items(): bars[n].slider.setValue(v)
            gui.updateScene()
            acts = gui.ren.GetActors(); acts.InitTraversal(); out = []
            for _ in range(acts.GetNumberOfItems()):
                A = acts.GetNextActor(); M = A.GetMatrix(); M = np.array([[M.GetElement(i, j) for j in range(4)] for i in range(4)])
                mp = A.GetMapper(); mp.Update(); p = vtk_to_numpy(mp.GetInput().GetPoints().GetData()).astype(float)
                out.append(dict(points=(np.hstack([p, np.ones((len(p), 1))]) @ M.T)[:, :3].tolist(), color=list(A.GetProperty().GetColor())))
            res.append(dict(q={n: s.value for n, s in bars.items()}, actors=out))
        return 0
    G.QApplication.exec = drive
    L.w.show(name)
    return res

def scene(out, rng, idx, tier):
    m, C, L, perm, objs, gen, o, info = build(rng, tier)
    import pymbs.ui.gui                                           # once, before the child processes
    names = [str(x) for x in L.w.state.q]; n = len(names)
    moves = []
    for _ in range(rng.choice([1, 3])):
        r = rng.random()
        moves.append("reset" if r < .15 else {x: rng.randint(-150, 150) for x in (names if r < .7 else rng.sample(names, 1))})
    os.makedirs("tmp", exist_ok=True); open("tmp/unrelated.txt", "w").write("x"); nm = "shown%d" % rng.randrange(3)
    for p in ("_visual.py", "_sensors.py", "_der_state.py"):     # left behind by a model of the same name
        if rng.random() < .3: open("tmp/" + nm + p, "w").write("raise RuntimeError('another model')\n")
    res = "result.json"
    if os.path.exists(res): os.remove(res)
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            d = os.open(os.devnull, os.O_WRONLY); os.dup2(d, 1); e = os.open("child.err", os.O_WRONLY | os.O_CREAT | os.O_TRUNC); os.dup2(e, 2)
            tempfile.tempdir = os.path.abspath("tmp"); sys.dont_write_bytecode = True
            r = show(L, nm, moves)
            json.dump(r, open(res + ".part", "w")); os.rename(res + ".part", res)
        except BaseException:
            import traceback; traceback.print_exc(); sys.stderr.flush()
        os._exit(0)
    os.waitpid(pid, 0)
    err = open("child.err", errors="replace").read()
    if not os.path.exists(res):
        t = [l for l in err.split("\n") if "Error" in l or "Traceback" in l]
        raise Fail("scene", "show fails: %s" % (t[-1][:100] if t else "child died"), "%s; %s" % (err[-1500:], info))
    if not os.path.exists("tmp/unrelated.txt"): raise Fail("scene", "show removed a foreign file", info)
    r = json.load(open(res))
    for k, st in enumerate(r):
        if sorted(st["q"]) != sorted(names): raise Fail("scene", "sliders", "%s for %s; %s" % (sorted(st["q"]), names, info))
        step = None if k == 0 else moves[k - 1]
        if isinstance(step, dict):
            for x, v in step.items():
                ok = abs(st["q"][x] - v / 100.) < 1e-9 or abs(st["q"][x] - v / 1000.) < 1e-9
                if not ok: raise Fail("scene", "slider value", "%s at %s is %s; %s" % (x, v, st["q"][x], info))
        qs = np.array([st["q"][x] for x in names])
        try: F = pose(m, C, perm, qs)
        except (Degenerate, Fail): continue
        if len(st["actors"]) != len(objs): raise Fail("scene", "actors", "%d for %d objects; %s" % (len(st["actors"]), len(objs), info))
        # the actors stand in the order in which the objects were entered
        for x, a in zip(objs, st["actors"]):
            A = m.at(F, x["at"]); P = (np.array(a["points"]) - A.r) @ A.R
            e = geometry(x, P)
            if e: raise Fail("scene", "%s%s" % (x["kind"], " at the start" if k == 0 else (" after reset" if step == "reset" else "")), "%s: %s in its frame; coordinates %s moves %s; %s" % (x["name"], e, st["q"], moves[:k], info))
            c = x["kw"].get("color")
            if c is not None and np.max(np.abs(np.array(c, float) - a["color"])) > 1e-6: raise Fail("scene", "color", "%s instead of %s; %s" % (a["color"], c, info))
            out.inc("comparisons"); out.group("actors", x["kind"])
        out.inc("poses")
    out.inc("distinct")

MODES = {"visual": visual, "scene": scene}
if __name__ == "__main__":
    worker.run(sys.argv[1], MODES[sys.argv[1]], sys.argv[2:], 100)
