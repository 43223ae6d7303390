"""Worker for M10, the actions of the viewer: viewerw.py all SEED START COUNT PROGRESS TIER

A random mechanism is shown off-screen in a child process and a random sequence of the viewer's actions is carried out: sliders are moved,
the simulation is started and stopped (step by step, and with the real thread), the model is compiled, results are loaded and played, poses
are recorded, sensor values are shown. What the viewer then holds, draws and writes is compared with a second copy of the generated
equations, run here."""
import os, sys, shutil, tempfile, importlib, itertools, json, glob, time
os.environ["QT_QPA_PLATFORM"] = "offscreen"; os.environ.setdefault("MPLBACKEND", "agg")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import worker
from worker import Fail
from mech import *
from mechgen import *
from mechw import generate, describe, state_order, gens_for, opts_for
import visw
np.seterr(all="ignore")
_n = itertools.count()

def drive_with(actions, log):
    """the body of the event loop, run inside the child process"""
    import pymbs.ui.gui as G, threading
    from PySide6.QtWidgets import QApplication
    def drive(*a):
        app = QApplication.instance()
        gui = [g for g in QApplication.topLevelWidgets() if isinstance(g, G.Gui)][0]
        gui.updateSceneTimer.stop()
        bars = {s.name: s for s in gui.sliders}; ibars = {s.name: s for s in gui.inputSliders}
        def frame(t=None):
            gui.updateScene(); acts = []
            for o in gui.vtkObjects:
                M = o.actor.GetMatrix(); M = np.array([[M.GetElement(i, j) for j in range(4)] for i in range(4)])
                acts.append(dict(r=M[:3, 3].tolist(), T=(M[:3, :3] / o.scale).tolist()))
            return dict(t=t, q=[float(str(x)) for x in list(gui.q)[:gui.nq]], acts=acts)
        log["start"] = dict(frame(), sliders=sorted(bars), inputs=sorted(ibars))
        def move(d, e):
            for n, v in d.items(): bars[n].slider.setValue(v)
            for n, v in e.items(): ibars[n].slider.setValue(v)
            return {n: s.value for n, s in bars.items()}, {n: s.value for n, s in ibars.items()}
        for k, a in enumerate(actions):
            r = log["actions"][k] = {}; op = a["op"]
            if op == "move": r["sl"], r["in"] = move({x: v + (bars[x].slider.value() == v) for x, v in a["sl"].items()}, a["in"]); r["frame"] = frame()
            elif op == "reset": gui.resetButton.click(); r["sl"], r["in"] = move({}, {}); r["frame"] = frame()
            elif op == "simulate":
                r["sl"], r["in"] = move(a["sl"], a["in"]); T = gui.SimThread; T.start = lambda: None; T.reinit = lambda: None
                try:
                    gui.simulateButton.setChecked(True); gui.runSimulation(); r["frames"] = []; r["given"] = []
                    for i in range(a["steps"]):
                        if i in a["changes"]: move({}, a["changes"][i])
                        if a["slide"] and i == 2: bars[sorted(bars)[0]].slider.setValue(bars[sorted(bars)[0]].slider.value() + 7)   # has no effect now
                        r["given"].append({n: s.value for n, s in ibars.items()}); t = gui.simulate()
                        if i in a["meanwhile"]:          # the thread makes a step while the scene is being drawn
                            f = gui.mod_sensors_visual; box = []
                            def meanwhile(q): v = f(q); gui.mod_sensors_visual = f; box.append(gui.simulate()); return v
                            gui.mod_sensors_visual = meanwhile; gui.updateScene(); gui.mod_sensors_visual = f
                            r["frames"].append(None); r["given"].append(r["given"][-1]); t = box[0]
                        r["frames"].append(frame(t))
                    gui.simulateButton.setChecked(False); gui.runSimulation()
                finally: del T.start; del T.reinit
            elif op == "live":
                r["sl"], r["in"] = move(a["sl"], a["in"]); before = threading.active_count()
                def stopped():
                    for _ in range(2000):
                        if threading.active_count() <= before: return True
                        time.sleep(.01)
                    return False
                r["many"] = 0
                for s in a["times"]:
                    gui.simulateButton.setChecked(True); t0 = time.time(); gui.runSimulation()
                    while time.time() - t0 < s: r["many"] = max(r["many"], threading.active_count() - before); gui.updateScene(); time.sleep(.002)
                    gui.simulateButton.setChecked(False); gui.runSimulation()
                    if s is not a["times"][-1] and a["wait"]: stopped()
                r["ended"] = stopped(); I = gui.integrator
                r["elapsed"] = time.time() - t0
                if r["ended"]: r["frame"] = frame(float(I.t)); r["y"] = np.asarray(I.y, float).tolist()
                else: return 0
            elif op == "watch":
                from scipy.io import savemat
                f = os.path.abspath("long.mat"); T = a["start"] + a["dt"] * np.arange(4000); savemat(f, {"T": np.array([T]), "Y": np.array(a["q"])[:, None] + T * .01})
                G.QFileDialog.getOpenFileName = staticmethod(lambda *x, **y: (f, "MATLAB mat-Files (*.mat)"))
                gui.loadResults(); gui.scale.setText(str(a["scaling"])); before = threading.active_count(); r["seen"] = []
                gui.playResultsButton.setChecked(True); t0 = time.time(); gui.startPlayingResults()
                while time.time() - t0 < a["time"]: r["seen"].append(frame()); time.sleep(.005)
                gui.playResultsButton.setChecked(False); gui.startPlayingResults(); r["ended"] = False; r["elapsed"] = time.time() - t0
                for _ in range(2000):
                    if threading.active_count() <= before: r["ended"] = True; break
                    time.sleep(.01)
                r["t"] = float(gui.ResultPlayer.getTime()); r["frame"] = frame()
                if not r["ended"]: return 0
                gui.resetResults(); r["last"] = frame()
            elif op == "close":
                before = threading.active_count()
                if a["what"] == "play":
                    from scipy.io import savemat
                    f = os.path.abspath("long.mat"); T = .02 * np.arange(4000); savemat(f, {"T": np.array([T]), "Y": np.zeros((gui.nq, 4000))})
                    G.QFileDialog.getOpenFileName = staticmethod(lambda *x, **y: (f, "MATLAB mat-Files (*.mat)"))
                    gui.loadResults(); gui.playResultsButton.setChecked(True); gui.startPlayingResults()
                else: gui.simulateButton.setChecked(True); gui.runSimulation()
                time.sleep(a["time"]); gui.close(); r["ended"] = False
                for _ in range(2000):
                    if threading.active_count() <= before: r["ended"] = True; break
                    time.sleep(.01)
                r["done"] = True; return 0
            elif op == "compile":
                gui.compileModelC(); r["same"] = [x is not None for x in (gui.mod_der_state, gui.mod_sensors_visual)]
                r["wrapped"] = "CWrapper" in getattr(gui.mod_der_state, "__module__", "")
                if gui.mod_der_state_setInputs and ibars: gui.mod_der_state_setInputs({n: s.value for n, s in ibars.items()})
                r["in"] = {n: s.value for n, s in ibars.items()}
                r["yd"] = [np.ravel(gui.mod_der_state(t, np.array(y))).tolist() for t, y in a["at"]]
            elif op == "play":
                from scipy.io import savemat
                f = os.path.abspath(a["file"]); savemat(f, {"T": np.array([a["T"]]), "Y": np.array(a["Y"])})
                G.QFileDialog.getOpenFileName = staticmethod(lambda *x, **y: (f, "MATLAB mat-Files (*.mat)"))
                gui.loadResults(); r["loaded"] = gui.ResultPlayer is not None
                R = gui.ResultThread; R.start = lambda: None; R.reinit = lambda: None
                try:
                    r["first"] = frame(); r["frames"] = []
                    gui.playResultsButton.setChecked(True); gui.startPlayingResults()
                    for i in range(a["calls"]):
                        here = gui.ResultPlayer.idxT; gui.q = None; t = gui.playResults(); end = not gui.playResultsButton.isChecked()
                        r["frames"].append(dict(frame(t), idx=here, end=end))
                        if end: break
                    if gui.playResultsButton.isChecked(): gui.playResultsButton.setChecked(False); gui.startPlayingResults(); r["stopped"] = frame()
                    gui.resetResults(); r["last"] = frame()
                finally: del R.start; del R.reinit
            elif op == "record":
                old = set(glob.glob("pi_record_*")); gui.recorder.toggle(True); r["rows"] = []
                for d in a["moves"]:
                    if isinstance(d, list): gui.q = list(d); gui.qChanged = True          # as a simulation leaves it
                    else: move(d, {})
                    r["rows"].append(frame()); gui.recorder.addData()
                gui.recorder.toggle(False)
                new = [x for x in glob.glob("pi_record_*") if x not in old]
                r["files"] = {os.path.basename(f): open(f).read() for x in new for f in glob.glob(x + "/*")}; r["dirs"] = len(new)
                for x in new: shutil.rmtree(os.path.abspath(x))
                time.sleep(1.05)                             # the directories carry the second in their name
            elif op == "sensors":
                r["sl"], r["in"] = move(a["sl"], a["in"]); gui.showSensors(); W = gui.sensorsWindow; W.timer.stop()
                for n in a["names"]: W.sensoren[n].setChecked(True)
                W.draw(); r["order"] = [str(s) for s in W.sensorenlist if W.sensoren[str(s)].isChecked()]
                r["bars"] = [float(p.get_height()) for p in W.mpl.axes.patches]
            r["done"] = True
        return 0
    G.QApplication.exec = drive

def actions_of(rng, names, inputs, sens, n):
    sl = lambda: {x: rng.randint(-150, 150) for x in (names if rng.random() < .7 else rng.sample(names, 1))}
    io = lambda: {x: rng.randint(-200, 200) for x in inputs}
    out = []; kinds = ["move", "simulate", "simulate", "live", "compile", "play", "watch", "record", "sensors", "reset"]
    for _ in range(rng.choice([2, 3, 4])):
        op = rng.choice(kinds); a = dict(op=op, sl=sl() if rng.random() < .8 else {})
        a["in"] = io() if rng.random() < .7 else {}
        if op == "sensors" and not sens: continue
        if op == "move": a["sl"] = sl()
        if op in ("live", "record", "compile", "watch") and any(b["op"] == op for b in out) and rng.random() < .7: continue
        if op == "simulate": a.update(steps=rng.choice([1, 5, 20]), changes={rng.randrange(1, 8): io() for _ in range(rng.choice([0, 1]))}, slide=rng.random() < .4, meanwhile=[i for i in range(20) if rng.random() < .08])
        if op == "live": a.update(times=rng.choice([[.08], [.2], [0], [0, .05], [.04, .03], [.03, 0, .02]]), wait=rng.random() < .5)
        if op == "watch": a.update(start=rng.choice([0., 3.]), dt=rng.choice([.02, .02, .05]), q=[round(rng.uniform(-1, 1), 3) for _ in range(n)], scaling=rng.choice([1, 1, 2., .5]), time=rng.choice([0, .1, .3]))
        if op == "compile": a["at"] = [(rng.uniform(0, 2), [rng.uniform(-1, 1) for _ in range(2 * n)]) for _ in range(3)]
        if op == "play":
            k = rng.choice([2, 5, 30]); t = np.cumsum([rng.choice([.004, .011, .05, rng.uniform(.001, .09)]) for _ in range(k)]) + rng.choice([0, 5.])
            a.update(T=t.tolist(), Y=[[round(rng.uniform(-1.5, 1.5), 4) for _ in range(k)] for _ in range(n * rng.choice([1, 2]))], calls=rng.choice([3, 60]), file=rng.choice(["res.mat", "My Results.mat"]))
        if op == "record": a["moves"] = [sl() if rng.random() < .7 else [round(rng.uniform(-2000, 2000), 3) for _ in range(n)] for _ in range(rng.choice([1, 3]))]
        if op == "sensors": a["names"] = [s for s in sens if rng.random() < .7] or sens[:1]
        out.append(a)
        if op == "simulate" and rng.random() < .3:
            if rng.random() < .5 and len(out) == 1: a["sl"] = {}
            out.append(dict(op="reset"))
    if inputs and rng.random() < .4:                     # a system at rest and an input that starts late
        out.insert(0, {"op": "simulate", "sl": {x: 0 for x in names}, "in": {x: 0 for x in inputs}, "steps": 40, "slide": False, "meanwhile": [], "changes": {rng.randrange(15, 25): io()}})
    if rng.random() < .15: out.append(dict(op="close", what=rng.choice(["simulate", "play"]), time=rng.choice([0, .05])))
    return out

def case(out, rng, idx, tier):
    m = good_model(rng, maxbodies=rng.choice([1, 2, 3]), maxdof=rng.choice([1, 2, 3]))
    if rng.random() < .7: add_loads(rng, m, rng.choice([1, 2]), kinds=("CmpForce", "CmpTorque", "Joint"))
    objs = []
    for k in range(rng.choice([1, 2, 4])):
        kind, a, att = visw.shape(rng); objs.append(dict(kind=kind, at=any_frame(rng, m, .15), kw=dict(a, name="obj%d" % k), name="obj%d" % k))
    sens = rng.random() < .6; A, B = any_frame(rng, m, .2), any_frame(rng, m, .2); gen = rng.choice(gens_for(m, rng, .2))
    def before(L):
        for l in m.loads: l["enter"](L)
        for x in objs: getattr(L.w.addVisualisation, x["kind"])(L.at(x["at"]), **x["kw"])
        if sens: L.w.addSensor.Position("Pos", L.at(A), L.at(B)); L.w.addSensor.Energy("Etot", L.w); L.w.addSensor.Distance("Dist", L.at(A), L.at(B)); L.w.addSensor.Acceleration("Acc", L.at(A), L.at(B))
    L = generate(m, gen, opts_for(rng, gen), before=before)
    names = [str(x) for x in L.w.state.q]; n = len(names)
    d = os.path.abspath("ref"); nm = "rf%d_%d" % (os.getpid(), next(_n)); os.makedirs(d, exist_ok=True)
    with quiet(): L.w.genCode.Python(nm, d)
    sys.path.insert(0, d); importlib.invalidate_caches(); sys.dont_write_bytecode = True
    try: der, vis = [getattr(importlib.import_module(nm + p), nm + p) for p in ("_der_state", "_visual")]; der_m = sys.modules[nm + "_der_state"]
    finally: sys.path.remove(d)
    sys.modules.pop(nm + "_sensors", None)
    sen = getattr(importlib_from(d, nm + "_sensors"), nm + "_sensors") if sens else None
    shutil.rmtree(d); setsen = getattr(sys.modules.get(nm + "_sensors"), nm + "_setInputs", None)
    setin = getattr(der_m, nm + "_setInputs", None)
    scal = sorted(k for k, s in m.inputs.items() if s is None)
    snames = sorted(sen(0., np.zeros(2 * n))) if sens else []
    acts = actions_of(rng, names, scal, snames, n)
    os.makedirs("tmp", exist_ok=True); res = "result.json"
    if os.path.exists(res): os.remove(res)
    sys.stdout.flush(); sys.stderr.flush(); import pymbs.ui.gui
    info = "gen %s actions %s model %s" % (gen, json.dumps([{k: v for k, v in a.items() if k != "Y"} for a in acts])[:1500], json.dumps(describe(m), default=str)[:1500])
    pid = os.fork()
    if pid == 0:
        log = {"actions": [None] * len(acts)}
        try:
            w = os.open(os.devnull, os.O_WRONLY); os.dup2(w, 1); e = os.open("child.err", os.O_WRONLY | os.O_CREAT | os.O_TRUNC); os.dup2(e, 2)
            tempfile.tempdir = os.path.abspath("tmp"); sys.dont_write_bytecode = True
            drive_with(acts, log)
            L.w.show("shown")
        except BaseException:
            import traceback; log["error"] = traceback.format_exc()
        try: json.dump(log, open(res + ".part", "w")); os.rename(res + ".part", res)
        except BaseException: import traceback; traceback.print_exc(); sys.stderr.flush()
        os._exit(0)
    os.waitpid(pid, 0)
    err = open("child.err", errors="replace").read()
    if not os.path.exists(res): raise Fail("viewer", "the program died", "%s; %s" % (err[-1000:], info))
    log = json.load(open(res)); shutil.rmtree(os.path.abspath("tmp"))
    if "error" in log:
        k = next((k for k, r in enumerate(log["actions"]) if not (r or {}).get("done")), None)
        raise Fail("viewer", "%s fails: %s" % (acts[k]["op"] if "start" in log and k is not None else "show", log["error"].strip().split("\n")[-1][:80]), "%s; %s" % (log["error"][-1500:], info))
    def near(a, b, tol=1e-8):
        a, b = np.asarray(a, float).ravel(), np.asarray(b, float).ravel()
        return a.shape == b.shape and np.all(np.abs(a - b) <= tol * (1 + np.max(np.abs(b), initial=0)))
    def drawn(fr, q, what, tol=1e-8):
        if not near(fr["q"], q, tol): raise Fail("viewer", what + " coordinates", "%s instead of %s; %s" % (fr["q"], np.asarray(q).tolist(), info))
        v = vis(np.array(fr["q"]))
        for x, a in zip(objs, fr["acts"]):
            T = v["T_" + x["name"]]; T = np.eye(3) if isinstance(T, int) else np.asarray(T, float)
            if not near(a["r"], v["r_" + x["name"]], 1e-7) or not near(a["T"], T, 1e-7): raise Fail("viewer", what + " drawn", "%s at %s %s; %s" % (x["name"], a["r"], fr["q"], info))
        out.inc("comparisons")
    if log["start"]["sliders"] != sorted(names): raise Fail("viewer", "sliders", "%s" % log["start"]["sliders"])
    if log["start"]["inputs"] != scal: raise Fail("viewer", "input sliders", "%s instead of %s" % (log["start"]["inputs"], scal))
    drawn(log["start"], log["start"]["q"], "start")
    from pymbs.ui.integrator import Integrator
    cur = [[log["start"]["q"]]]; compiled = False; start_sl = None
    vec = lambda sl: np.array([sl[x] for x in names])
    def run(q0, steps, given):
        I = Integrator(lambda t, y: der(t, y), list(q0), [0.] * n); rows = []
        for k in range(steps):
            if setin and given[k]: setin(given[k])
            if setin and k and given[k] != given[k - 1]: I.set_initial_value(I.y, I.t)   # it has gone ahead with the former inputs
            rows.append(np.array(I.step()))
            if not I.successful(): break
        return rows
    def check_motion(q0, given, frames, what):
        R = run(q0, len(frames), given); S = run(np.asarray(q0) + 1e-7, len(frames), given)
        for k, fr in enumerate(frames):
            if k >= len(R) or k >= len(S) or not np.all(np.isfinite(R[k])) or np.max(np.abs(R[k] - S[k])) > 2e-6 * (1 + np.max(np.abs(R[k]))): out.inc("sensitive motions"); return
            if fr is None: continue
            if not np.isclose(fr["t"], .01 * (k + 1)): raise Fail("viewer", what + " time", "%s at step %d; %s" % (fr["t"], k, info))
            drawn(fr, R[k][:n], what + " step" + (" compiled" if compiled else ""), 1e-4 if compiled else 2e-6 if given[0] != given[k] else 1e-8)
        out.inc("steps", len(frames))
    seen = {}
    for a, r in zip(acts, log["actions"]):
        op = a["op"]; out.group("actions", op)
        if op in ("move", "reset"): drawn(r["frame"], vec(r["sl"]), op)
        if op == "reset":
            for x in names:
                if abs(r["sl"][x]) > .011 + abs(log["start"]["q"][names.index(x)]): raise Fail("viewer", "reset", "%s at %s; %s" % (x, r["sl"][x], info))
        elif op == "simulate": check_motion(vec(r["sl"]), r["given"], r["frames"], "simulation")
        elif op == "live":
            if not r["ended"]: raise Fail("viewer", "the simulation goes on after it was stopped", "times %s; %s" % (a["times"], info))
            if r["many"] > 1: raise Fail("viewer", "two simulations at once", "times %s; %s" % (a["times"], info))
            k = int(round(r["frame"]["t"] / .01))
            if r["frame"]["t"] > r["elapsed"] + .0501: raise Fail("viewer", "simulation runs ahead of the time", "%s after %s s; %s" % (r["frame"]["t"], r["elapsed"], info))
            if k: R = run(vec(r["sl"]), k, [r["in"]] * k); S = run(vec(r["sl"]) + 1e-7, k, [r["in"]] * k)
            if k and len(R) == k == len(S) and np.max(np.abs(R[-1] - S[-1])) < 2e-6 * (1 + np.max(np.abs(R[-1]))):
                if not near(r["y"], R[-1], 1e-4 if compiled else 1e-8): raise Fail("viewer", "simulation by the thread", "at %s: %s instead of %s; %s" % (r["frame"]["t"], r["y"], R[-1].tolist(), info))
                drawn(r["frame"], r["y"][:n], "simulation by the thread")
        elif op == "compile":
            if not all(r["same"]) or not r["wrapped"]: raise Fail("viewer", "compiled model is not used", "%s; %s" % (err[-600:], info))
            compiled = True
            if setin and r["in"]: setin(r["in"])
            for (t, y), yd in zip(a["at"], r["yd"]):
                e = np.ravel(der(t, np.array(y)))
                if np.all(np.isfinite(e)) and not near(yd, e, 1e-6): raise Fail("viewer", "derivative of the compiled model", "%s instead of %s at %s; %s" % (yd, e.tolist(), y, info))
                out.inc("comparisons")
        elif op == "play":
            Y, T = np.array(a["Y"]), a["T"]
            if not r["loaded"]: raise Fail("viewer", "results are not loaded", info)
            for w in ("first", "last"): drawn(r[w], Y[:n, 0], "results " + w)
            i = 0
            for fr in r["frames"]:
                if fr["idx"] != i: raise Fail("viewer", "order of the results", "sample %d instead of %d, times %s; %s" % (fr["idx"], i, T, info))
                if not fr["end"]: drawn(fr, Y[:n, i], "results")
                j = i + 1
                while j < len(T) and T[j] < T[i] + .02 - 1e-12: j += 1
                if fr["end"]:
                    drawn(fr, Y[:n, 0], "results at the end")
                    if j < len(T) and T[j] > T[i] + .02 + 1e-9: raise Fail("viewer", "results end early", "after sample %d of %s; %s" % (i, T, info))
                    break
                if j >= len(T): raise Fail("viewer", "results go on behind the end", info)
                if abs(fr["t"] - T[j]) > 1e-9: raise Fail("viewer", "time of the results", "%s instead of %s; %s" % (fr["t"], T[j], info))
                i = j
            out.inc("samples", len(r["frames"]))
        elif op == "watch":
            if not r["ended"]: raise Fail("viewer", "the results go on after they were stopped", "%s; %s" % (a, info))
            at = lambda t: np.array(a["q"]) + t * .01
            if r["t"] - a["start"] > a["scaling"] * r["elapsed"] + 5.01 * max(.02, a["dt"]): raise Fail("viewer", "results run ahead of the time", "%s after %s s; %s" % (r["t"], r["elapsed"], info))
            drawn(r["frame"], r["frame"]["q"], "results by the thread"); drawn(r["last"], at(a["start"]), "results by the thread, reset")
            old = a["start"]
            for fr in r["seen"] + [r["frame"]]:
                t = (fr["q"][0] - a["q"][0]) / .01
                if not near(fr["q"], at(t)) or t < old - 1e-9 or t > r["t"] + 1e-9 or abs((t - a["start"]) / a["dt"] - round((t - a["start"]) / a["dt"])) > 1e-6: raise Fail("viewer", "results by the thread, order", "%s after %s; %s" % (t, old, info))
                old = t
            out.inc("samples", len(r["seen"]))
        elif op == "close":
            if not r["ended"]: raise Fail("viewer", "goes on after the window was closed", "%s; %s" % (a, info))
        elif op == "record":
            want = sorted([x["name"] + ".pid" for x in objs] + ["state.txt"])
            if r["dirs"] != 1 or sorted(r["files"]) != want: raise Fail("viewer", "recorded files", "%s in %d directories instead of %s; %s" % (sorted(r["files"]), r["dirs"], want, info))
            for f, text in r["files"].items():
                rows = [[float(z) for z in l.split(";")] for l in text.strip().split("\n") if l]
                if len(rows) != len(r["rows"]): raise Fail("viewer", "number of records", "%d instead of %d in %s; %s" % (len(rows), len(r["rows"]), f, info))
                for k, (row, fr) in enumerate(zip(rows, r["rows"])):
                    if f == "state.txt": e = fr["q"]
                    else: v = vis(np.array(fr["q"])); x = f[:-4]; T = v["T_" + x]; e = np.concatenate([np.ravel(v["r_" + x]), np.ravel(np.eye(3) if isinstance(T, int) else T)])
                    if len(row) != 1 + len(e) or np.max(np.abs(np.array(row[1:]) - e)) > 5.1e-4: raise Fail("viewer", "recorded values", "%s row %d: %s instead of %s; %s" % (f, k, row, np.asarray(e).tolist(), info))
                    if row[0] < -1e-3 or (k and row[0] < rows[k - 1][0] - 1e-3) or row[0] > 60: raise Fail("viewer", "recorded times", "%s; %s" % (row, info))
                out.inc("comparisons")
        elif op == "sensors":
            if setsen: setsen(r["in"]); out.inc("sensors of inputs")
            v = sen(0., np.concatenate([vec(r["sl"]), np.zeros(n)])); e = np.concatenate([np.ravel(np.asarray(v[x], float)) for x in r["order"]])
            if not set(a["names"]) <= set(r["order"]): raise Fail("viewer", "sensors shown", "%s" % r["order"])
            if len(r["bars"]) == len(e): ok = np.isfinite(e); r["bars"], e = np.where(ok, r["bars"], 0.), np.where(ok, e, 0.)   # a rate at distance zero
            if not near(r["bars"], e, 1e-6): raise Fail("viewer", "values of the sensors shown", "%s: %s instead of %s; %s" % (r["order"], list(r["bars"]), e.tolist(), info))
            out.inc("comparisons")
    out.inc("distinct"); out.inc("actions", len(acts))
    out.sample({"actions": [a["op"] for a in acts], "coordinates": names, "inputs": scal, "idx": idx})

def importlib_from(d, mod):
    sys.path.insert(0, d)
    try: importlib.invalidate_caches(); return importlib.import_module(mod)
    finally: sys.path.remove(d)

if __name__ == "__main__":
    worker.run("viewer", case, sys.argv[2:], 100)
