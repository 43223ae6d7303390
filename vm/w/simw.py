"""Worker for the simulated motion (M08): simw.py MODE SEED START COUNT PROGRESS TIER, MODE = invariants|integrator|simulate

invariants: the generated Python model of a random mechanism is integrated by a precise integrator of our own; while it moves, the values of
the generated energy, velocity, position and orientation sensors are watched: the total energy changes by the work of the loads (computed by
the independent mechanics of mech.py) and by nothing else, a free-floating system keeps its momentum.  integrator: sequences of calls on
pymbs.ui.integrator against exact solutions.  simulate: MbsSystem.simulate against a precise integration of independent equations of motion."""
import os, sys, copy, shutil, tempfile, importlib, itertools, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import worker
from worker import Fail
from mech import *
from mechgen import *
from mechw import generate, describe, state_order, gens_for, opts_for, far_apart
import loopw
from loopw import Closed, Degenerate
from pymbs.symbolics import VarKind
from scipy.integrate import DOP853, LSODA
from scipy.linalg import expm
np.seterr(all="ignore")
_n = itertools.count()

def load(L, gen, names):
    """the generated Python functions of a model"""
    n = "m%d_%d" % (os.getpid(), next(_n)); d = os.path.abspath(n); os.mkdir(d)
    with quiet(): L.w.genCode.Python(n, d)
    sys.path.insert(0, d); importlib.invalidate_caches(); sys.dont_write_bytecode = True
    try:
        r = []
        for p in ("der_state", "sensors"):
            f = d + "/%s_%s.py" % (n, p)
            if p == "sensors" and not os.path.exists(f): r.append(None); continue
            r.append(importlib.import_module(n + "_" + p))
    finally:
        sys.path.remove(d)
    shutil.rmtree(d)
    return n, r[0], r[1]

class Watched:
    """a generated model whose motion is followed"""
    def __init__(s, L, m, inp, names):
        s.m = m; n, ds, se = load(L, None, names)
        s.f = getattr(ds, n + "_der_state"); s.s = getattr(se, n + "_sensors")
        for x in (ds, se):
            if hasattr(x, n + "_setInputs"): getattr(x, n + "_setInputs")({k: (np.matrix(v).T if isinstance(v, list) else v) for k, v in inp.items() if k != "time"})

def follow(f, y0, T, monitor, rtol=1e-9, atol=1e-11, limit=6000, steps=400, big=60.):
    """integrates and calls monitor(t, y) at every step; -> time reached"""
    with np.errstate(all="ignore"):
        s = DOP853(f, 0., y0, T, rtol=rtol, atol=atol)
        k = 0
        while s.status == "running" and s.nfev < limit and k < steps:
            s.step(); k += 1
            if s.status == "failed" or not np.all(np.isfinite(s.y)) or np.max(np.abs(s.y)) > big: return s.t, k
            if monitor(s.t, s.y) is False: return s.t, k
    return s.t, k

def invariants(out, rng, idx, tier):
    r = rng.random()
    kind = "loop" if r < .25 else ("floating" if r < .5 else "tree")
    loaded = rng.random() < .55
    C = None
    if kind == "loop":
        for _ in range(40):
            m = loopw.make(rng, tier); C = Closed(m)
            try: C.order()
            except ValueError: continue
            if len(C.ind) <= 4 and len(m.bodies) <= 6: break
        else: out.inc("skipped"); return
    elif kind == "tree":
        m = good_model(rng, maxbodies=3, maxdof=rng.choice([2, 3, 4]))
    else:
        m = floating(rng)
    if loaded:
        kinds = ("PtPForce", "CmpForce", "CmpTorque", "Joint", "Spring")
        if kind == "floating":
            internal(rng, m)
        else: add_loads(rng, m, rng.choice([1, 2, 3]), kinds=kinds)
    gens = ["Recursive"] if kind == "loop" and any(c["kind"] != "FourBar" for c in m.closed) else gens_for(m, rng, .3 if len(m.bodies) < 3 and m.ndof() < 4 else 0)
    gen = rng.choice(gens)
    o = opts_for(rng, gen)
    single = rng.random() < .5
    names = []
    def before(L):
        for l in m.loads: l["enter"](L)
        if kind == "loop":
            for c in m.closed: c["enter"](L, c["name"])
        if single:
            L.w.addSensor.Energy("Etot", L.w, name="Etot_n"); names.append("Etot")
        else:
            for b in range(len(m.bodies)): L.w.addSensor.Energy("En%d" % b, L.body[b], name="En%d_n" % b); names.append("En%d" % b)
        if kind == "floating":
            for b in range(len(m.bodies)):
                L.w.addSensor.Velocity("vv%d" % b, L.w, L.body[b]); L.w.addSensor.Position("pp%d" % b, L.w, L.body[b])
                L.w.addSensor.Orientation("oo%d" % b, L.w, L.body[b]); L.w.addSensor.AngularVelocity("ww%d" % b, L.w, L.body[b])
            L.w.addSensor.CenterofMass("com")
    L = generate(m, gen, o, before=before)
    inp = random_inputs(rng, m)
    idxs = []
    if C:
        jn = {L.joint[c].name: i for i, c in enumerate(m.coords())}
        idxs = [jn[str(x)[2:]] for x in L.w.state.q]
        perm = [C.ind.index(i) for i in idxs]
    else: perm = state_order(L, m)
    W = Watched(L, m, inp, names); n = len(perm)
    posture = []
    def full(y):
        """coordinates of the model in its own order"""
        a, b = np.empty(n), np.empty(n); a[perm] = y[:n]; b[perm] = y[n:2 * n]
        if not C: return a, b
        q, qd, J = C.solve(a, b); return q, qd
    def cond(q):
        """of the mass matrix of the independent coordinates"""
        M = m.terms(q, np.zeros(len(q)), [])[0]
        if C:
            J = C.jac(q); T = np.zeros((len(q), len(C.ind))); T[C.ind] = np.eye(len(C.ind)); T[C.dep] = -np.linalg.solve(J[:, C.dep], J[:, C.ind]); M = T.T @ M @ T
        return np.linalg.cond(M)
    def power(t, q, qd):
        F = m.kin(q, qd, np.zeros(m.ndof())); i = dict(inp, time=t)
        if not far_apart(m, F, .08): raise Degenerate
        ext, g = m.load_forces(F, i); p = 0.
        for b, x, f, tq in ext:
            if b >= 0: p += f @ F[b].fixed(x, np.eye(3)).v + tq @ F[b].w
        for k, v in g: p += v * qd[k]
        return p
    def energy(t, y):
        se = W.s(t, y)
        missing = [x for x in names if x not in se]
        if missing: raise Fail("missing", "energy sensors", str(missing))
        return sum(float(np.asarray(se[x]).ravel()[0]) for x in names), se
    def kinetic(q, qd):
        return .5 * qd @ m.terms(q, qd, [])[0] @ qd
    reached, seen = 0., 0
    for trial in range(6):
        a, b = random_state(rng, n) if not C else (np.array([rng.uniform(-1.5, 1.5) for _ in range(n)]), np.array([rng.uniform(-1.5, 1.5) for _ in range(n)]))
        y0 = np.concatenate([np.asarray(a, float)[perm], np.asarray(b, float)[perm]])
        try:
            q, qd = full(y0)
            if m.loads: power(0., q, qd)
            if cond(q) > 1e5: continue
            d0 = np.asarray(W.f(0., y0), float)
        except Degenerate: continue
        if d0.shape != (2 * n,) : raise Fail("shape", "derivative", "%s for %s states" % (d0.shape, 2 * n))
        if not np.all(np.isfinite(d0)) or np.max(np.abs(d0)) > 2e3: continue
        E0, se0 = energy(0., y0); scale = [abs(E0)]
        stop = []
        def rhs(t, y):
            d = np.asarray(W.f(t, y[:2 * n]), float)
            if not m.loads: return d
            try: p = power(t, *full(y))
            except (Degenerate, Fail): stop.append(1); p = np.nan
            return np.append(d, p)
        mom0 = momentum(m, se0) if kind == "floating" else None
        T = rng.choice([.4, 1., 2.5])
        def monitor(t, y):
            nonlocal seen
            try:
                q, qd = full(y)
                if C and np.max(np.abs(np.concatenate([q, qd]))) > 60: return False
                if cond(q) > 1e6: return False
            except (Degenerate, Fail): return False
            E, se = energy(t, y); w = y[2 * n] if m.loads else 0.
            scale[0] = max(scale[0], kinetic(q, qd), abs(w), abs(E), 1e-2)
            seen += 1
            if abs(E - E0 - w) > 2e-6 * scale[0]:
                raise Fail("energy", "%s %s%s" % (kind, gen, " loads" if m.loads else ""), "at t %.4f energy %.10g, %.10g at the start, work %.10g; state %s start %s inputs %s opts %s model %s" %
                           (t, E, E0, w, y.tolist(), y0.tolist(), inp, o, json.dumps(describe(m), default=str)))
            if mom0 is not None:
                P, H, cm, M = momentum(m, se); P0, H0, cm0, M0 = mom0
                g = m.gvec()
                for what, got, exp in (("momentum", P, P0 + M * g * t), ("angular momentum", H, H0), ("centre of mass", cm, cm0 + P0 / M * t + .5 * g * t * t),
                                       ("centre of mass sensor", np.asarray(se["com_r"], float).ravel(), cm)):
                    if np.max(np.abs(got - exp)) > 2e-6 * (1 + np.max(np.abs(exp)) + np.max(np.abs(got)) + scale[0]):
                        raise Fail("momentum", "%s %s" % (gen, what), "at t %.4f %s instead of %s; start %s inputs %s opts %s model %s" %
                                   (t, got.tolist(), exp.tolist(), y0.tolist(), inp, o, json.dumps(describe(m), default=str)))
                out.inc("comparisons", 4)
            out.inc("comparisons")
        y0_ = np.append(y0, 0.) if m.loads else y0
        t, k = follow(rhs, y0_, T, monitor, steps=150 if tier == "quick" else 500)
        if k < 5: continue
        reached = max(reached, t)
        out.inc("trajectories"); out.inc("steps", k)
        break
    if not seen: out.inc("skipped"); return
    out.inc("distinct"); out.group("systems", "%s %s%s" % (kind, gen, " loads" if m.loads else ""))
    out.sample({"kind": kind, "dofs": [j["dofs"] for j in m.joints], "loads": [l["kind"] for l in m.loads], "gen": gen, "seconds": round(reached, 3), "idx": idx})

def floating(rng):
    """one body with all six degrees of freedom towards the world, the others behind it"""
    for _ in range(50):
        m = good_model(rng, maxbodies=rng.choice([1, 2, 3]), maxdof=rng.choice([1, 2]), welds=False) if "welds" in good_model.__code__.co_varnames else good_model(rng, maxbodies=rng.choice([1, 2, 3]), maxdof=rng.choice([1, 2]))
        root = [j for j in m.joints if j["par"][0] < 0]
        if len(root) != 1 or any(j["par"][0] < 0 and j is not root[0] for j in m.joints): continue
        tr = ["Tx", "Ty", "Tz"]; rng.shuffle(tr)
        ro = list(rng.choice([("Rx", "Ry", "Rz"), ("Rz", "Ry", "Rx"), ("Rz", "Rx", "Ry"), ("Ry", "Rx", "Rz")]))
        root[0]["dofs"] = tr + ro; [root[0].pop(x, None) for x in ("str", "q0", "qd0")]
        q, qd = random_state(rng, m.ndof())
        try:
            if np.linalg.cond(m.terms(q, qd, [])[0]) < 1e4: return m
        except Exception: pass
    raise Fail("harness", "no floating system", "")

def internal(rng, m):
    """loads between the bodies only"""
    root = [j for j in m.joints if j["par"][0] < 0][0]["name"]
    lg = LG(rng, m)
    for _ in range(12):
        k = len(m.loads); lg.add(kinds=("PtPForce", "CmpTorque", "Joint", "Spring"))
        for l in m.loads[k:]:
            if (l["kind"] == "Joint" and l["joint"][0] == root) or (l["kind"] != "Joint" and (l["a"][0] < 0 or l["b"][0] < 0)): m.loads.remove(l)
        if len(m.loads) >= 2: break

def momentum(m, se):
    P, H, c, M = np.zeros(3), np.zeros(3), np.zeros(3), 0.
    v3 = lambda n: np.asarray(se[n], float).ravel(); B = []
    for b in range(len(m.bodies)):
        mass, cg, I = m.body_props(b)
        R = np.asarray(se["oo%d" % b], float); w = v3("ww%d" % b); r = v3("pp%d" % b) + R @ cg; v = v3("vv%d" % b) + np.cross(w, R @ cg)
        B.append((mass, r, v, R @ I @ R.T @ w)); P = P + mass * v; c = c + mass * r; M += mass
    c = c / M
    for mass, r, v, h in B: H = H + h + mass * np.cross(r - c, v - P / M)
    return P, H, c, M

# ------------------------------------------------------------------ the integrator
def problem(rng):
    """(f, exact solution, n, name): everything stable or oscillating"""
    k = rng.randrange(5); u = lambda a, b: rng.uniform(a, b)
    if k == 0:
        n = rng.randint(1, 6); A = np.array([[u(-1, 1) for _ in range(n)] for _ in range(n)]); A = (A - A.T) * u(.5, 3) - np.diag([u(0, 2) for _ in range(n)])
        y0 = [u(-2, 2) for _ in range(n)]
        return (lambda t, y: A @ y), (lambda t: expm(A * t) @ np.array(y0)), y0, "linear"
    if k == 1:
        n = rng.randint(1, 4); w = [u(.5, 6) for _ in range(n)]; q = [u(-1, 1) for _ in range(n)]; v = [u(-2, 2) for _ in range(n)]
        W = np.array(w)
        f = lambda t, y: np.concatenate([y[n:], -W * W * y[:n]])
        ex = lambda t: np.concatenate([np.array(q) * np.cos(W * t) + np.array(v) / W * np.sin(W * t), -np.array(q) * W * np.sin(W * t) + np.array(v) * np.cos(W * t)])
        return f, ex, q + v, "oscillators"
    if k == 2:
        n = rng.randint(1, 4); a = np.array([u(-2, 2) for _ in range(n)]); w = np.array([u(.3, 3) for _ in range(n)]); y0 = [u(-1, 1) for _ in range(n)]
        return (lambda t, y: a * np.cos(w * t)), (lambda t: np.array(y0) + a / w * np.sin(w * t)), y0, "time"
    if k == 3:
        y0 = [u(.1, .9)]; r = u(.5, 4)
        return (lambda t, y: r * y * (1 - y)), (lambda t: np.array([1 / (1 + (1 / y0[0] - 1) * math.exp(-r * t))])), y0, "logistic"
    s = u(50, 800); y0 = [u(-1, 1), u(-1, 1)]                   # stiff
    c = y0[0]; 
    return (lambda t, y: np.array([-s * (y[0] - math.cos(t)) - math.sin(t), -y[1]])), (lambda t: np.array([math.cos(t) + (c - 1) * math.exp(-s * t), y0[1] * math.exp(-t)])), y0, "stiff"

def integrator(out, rng, idx, tier):
    from pymbs.ui.integrator import Integrator
    several = []
    for k in range(rng.choice([1, 1, 2])):
        f, ex, y0, kind = problem(rng)
        cut = rng.randint(0, len(y0)); a, b = list(y0[:cut]), list(y0[cut:])
        form = rng.choice(["list", "tuple", "array"])
        conv = {"list": list, "tuple": tuple, "array": np.array}[form]
        A, B = conv(a), conv(b)
        kw = {}
        if rng.random() < .5: kw["dt"] = rng.choice([.001, .01, .05, .2, 1, 1 / 3., 1e-4, rng.uniform(1e-4, .3), rng.uniform(1e-3, .02)])
        if rng.random() < .5: kw["rtol"], kw["atol"] = rng.choice([(1e-6, 1e-9), (1e-9, 1e-12), (1e-3, 1e-3)])
        calls = [0]
        def h(t, y, f=f, calls=calls): calls[0] += 1; return f(t, y)
        I = Integrator(h, A, B, **kw)
        if form != "tuple" and rng.random() < .5:             # what the caller does with the own values afterwards does not matter
            for z, c in ((A, a), (B, b)):
                for i in range(len(z)): z[i] = c[i] = rng.choice([7., -3.5, c[i] + 1])
        several.append(dict(I=I, ex=ex, kind=kind, y0=y0, A=A, B=B, a=a, b=b, kw=kw, t=0., dt=kw.get("dt", .01), log=[], kept=[], calls=calls, rtol=kw.get("rtol", 1e-3), atol=kw.get("atol", 1e-6), first={}))
    for _ in range(rng.randint(5, 60)):
        if not several: break
        x = rng.choice(several); I = x["I"]; op = rng.random()
        info = "problem %s start %s options %s calls so far %s" % (x["kind"], x["y0"], x["kw"], x["log"][-40:])
        if op < .1:
            d = rng.choice([.001, .02, .3, 1, np.float64(.05), 2, rng.uniform(1e-5, .5), 1 / 7.]); I.set_step_size(d); x["dt"] = float(d); x["log"].append("dt %s" % d)
        elif op < .16:
            I.reset(); x["log"].append("reset"); x["t"] = 0.; x["steps"] = 0
            x["since"] = []
            if I.t != 0 or not np.array_equal(np.asarray(I.y, float).ravel(), np.array(x["y0"], float)): raise Fail("integrator", "reset", "time %s values %s; %s" % (I.t, I.y, info))
            out.inc("comparisons")
        else:
            if x["t"] > 40: continue
            c = x["calls"][0]
            y = I.step(); x["t"] += x["dt"]; x["log"].append("step"); x.setdefault("since", []).append(x["dt"])
            if not I.successful() and x["kind"] == "stiff" and x["rtol"] < 1e-4: several.remove(x); out.inc("too_many_internal_steps"); break    # the limit of lsoda
            if not I.successful(): raise Fail("integrator", "failed", info)
            if abs(I.t - x["t"]) > 1e-9 * (1 + x["t"]): raise Fail("integrator", "time", "%r instead of %r; %s" % (I.t, x["t"], info))
            e = x["ex"](x["t"]); y = np.asarray(y, float)
            if y.shape != e.shape: raise Fail("integrator", "shape", "%s %s; %s" % (y.shape, e.shape, info))
            big = 1 + np.max(np.abs(x["y0"])) + np.max(np.abs(e))
            tol = (60 * (1 + 3 * x["t"]) * (x["rtol"] * big + x["atol"]))
            if np.max(np.abs(y - e)) > tol: raise Fail("integrator", "values", "at %s: %s instead of %s (tolerance %.3g); %s" % (x["t"], y.tolist(), e.tolist(), tol, info))
            # the same steps after a reset give the same numbers
            key = tuple(x["since"])
            if key in x["first"]:
                if not np.array_equal(x["first"][key], y): raise Fail("integrator", "repetition", "%s first %s after reset %s; %s" % (key, x["first"][key].tolist(), y.tolist(), info))
                out.inc("repetitions")
            else: x["first"][key] = y.copy()
            x["kept"].append((y, y.copy())); out.inc("comparisons"); out.inc("steps")
        for z in several:
            if list(z["A"]) != z["a"] or list(z["B"]) != z["b"]: raise Fail("integrator", "initial values changed", info)
            for p, c in z["kept"]:
                if not np.array_equal(p, c): raise Fail("integrator", "values returned before changed", info)
    out.inc("distinct"); [out.group("problems", x["kind"]) for x in several]

# ------------------------------------------------------------------ simulate
def simulate(out, rng, idx, tier):
    """models are simulated one after the other in one process, some under the same name"""
    tempfile.tempdir = os.path.abspath("tmp"); os.makedirs("tmp", exist_ok=True)
    done = []
    for _ in range(rng.choice([1, 2, 2])):
        C = None
        if rng.random() < .2:
            for _ in range(40):
                m = loopw.make(rng, tier); C = Closed(m)
                try: C.order()
                except ValueError: continue
                if len(C.ind) <= 2 and len(m.bodies) <= 4: break
            else: continue
        else: m = good_model(rng, maxbodies=2, maxdof=rng.choice([1, 2, 3]))
        if rng.random() < .5:
            add_loads(rng, m, 1, kinds=("PtPForce", "CmpForce", "CmpTorque", "Joint", "Spring"))
        gen = rng.choice(["Recursive"] if C else gens_for(m, rng, .2))
        sens = rng.random() < .4
        def before(L):
            for l in m.loads: l["enter"](L)
            if C:
                for c in m.closed: c["enter"](L, c["name"])
            if sens: L.w.addSensor.Energy("Etot", L.w)
        L = generate(m, gen, opts_for(rng, gen), before=before)
        if C: jn = {L.joint[c].name: i for i, c in enumerate(m.coords())}; perm = [C.ind.index(jn[str(x)[2:]]) for x in L.w.state.q]
        else: perm = state_order(L, m)
        done.append((m, C, L, perm, gen))
    for _ in range(rng.choice([2, 3, 4])):
        if not done: break
        m, C, L, perm, gen = rng.choice(done); n = len(perm)
        T = rng.choice([.005, .05, .1, .3, .5])
        inp = {k: (0. if not isinstance(v, list) else [0., 0., 0.]) for k, v in random_inputs(rng, m).items()}
        a = np.array([rng.uniform(-1.2, 1.2) for _ in range(n)])
        def acc(t, y):
            q, qd = np.empty(n), np.empty(n); q[perm] = y[:n]; qd[perm] = y[n:]
            i = dict(inp, time=t)
            if C:
                q, qd, J = C.solve(q, qd); w, cond, h = C.acc(q, qd, J, i); w = w[C.ind]
                if cond > 1e6: raise Degenerate
            else:
                if m.loads and not far_apart(m, m.kin(q, qd, np.zeros(n)), .08): raise Degenerate
                w, M, h, _ = m.acc(q, qd, i)
                if np.linalg.cond(M) > 1e5: raise Degenerate
            return np.concatenate([y[n:], w[perm]])
        q0 = [float(x) for x in a[perm]]; y0 = np.array(q0 + [0.] * n)
        ts = []; t = 0
        while t < T: t += .01; ts.append(t)
        try:
            sol = []
            for meth, kw in ((DOP853, dict(rtol=1e-8, atol=1e-9)), (LSODA, dict(rtol=1e-3, atol=1e-6))):
                s = meth(acc, 0., y0, ts[-1] + .02, **kw); rows = [y0]; k = 0
                while k < len(ts):
                    s.step()
                    if s.status == "failed" or s.nfev > 4000 or np.max(np.abs(s.y)) > 60: raise Degenerate
                    d = s.dense_output()
                    while k < len(ts) and ts[k] <= s.t: rows.append(d(ts[k])); k += 1
                    if s.status == "finished": break
                sol.append(np.array(rows))
        except (Degenerate, Fail, RuntimeError, np.linalg.LinAlgError): out.inc("skipped"); continue
        ref, coarse = sol
        form = rng.choice([list, list, tuple, np.array]); given = form(q0); text = rng.random() < .5
        name = rng.choice([None, "model", "model", "other", "M_%d" % rng.randrange(3)])
        kw = {}
        if name: kw["modelname"] = name
        if text: kw["text_output"] = True
        fn = (name or "pymbsModel") + "_values" + (".csv" if text else ".npy")
        if os.path.exists(fn): os.remove(fn)
        path, mods, tmp = list(sys.path), set(sys.modules), sorted(os.listdir("tmp"))
        info = "q0 %s T %s name %s generator %s model %s" % (q0, T, name, gen, json.dumps(describe(m), default=str))
        try:
            with quiet(): L.w.simulate(given, T, **kw)
        except worker.CaseTimeout: raise
        except Exception as e: raise Fail("simulate", "refused %s" % type(e).__name__, "%s; %s" % (e, info))
        if not os.path.exists(fn): raise Fail("simulate", "no output file", "%s in %s; %s" % (fn, os.listdir("."), info))
        v = np.loadtxt(fn) if text else np.load(fn)
        os.remove(fn)
        if list(given) != q0: raise Fail("simulate", "q0 changed", info)
        if sys.path != path: raise Fail("simulate", "sys.path changed", info)
        v = np.atleast_2d(v)
        if v.shape[1] != 2 * n or not abs(len(v) - len(ref)) <= 1 or (len(v) - 1) * .01 < T - 1e-9: raise Fail("simulate", "rows", "%s instead of %s; %s" % (v.shape, ref.shape, info))
        k = min(len(v), len(ref))
        lim = 10 * np.max(np.abs(coarse - ref)) + 5e-3 * (1 + np.max(np.abs(ref)))
        d = np.abs(v[:k] - ref[:k])
        if not np.all(np.isfinite(v)) or np.max(d) > lim:
            r = int(np.argmax(np.max(d, axis=1))) if np.all(np.isfinite(d)) else 0
            raise Fail("simulate", "trajectory", "row %d: %s instead of %s (tolerance %.3g); %s" % (r, v[r].tolist(), ref[r].tolist(), lim, info))
        if np.max(np.abs(v[0] - ref[0])) > 1e-12: raise Fail("simulate", "first row", "%s instead of %s; %s" % (v[0].tolist(), ref[0].tolist(), info))
        out.inc("comparisons", k); out.inc("simulations"); out.inc("distinct"); out.group("simulated", gen + (" loop" if C else ""))
    out.sample({"simulated": len(done), "idx": idx})

MODES = {"invariants": invariants, "integrator": integrator, "simulate": simulate}
if __name__ == "__main__":
    worker.run(sys.argv[1], MODES[sys.argv[1]], sys.argv[2:], 100)
