"""Workers for the mechanics properties (M01-M09): models entered through pymbs.input, the generated equations executed and
compared with numpy mechanics computed from the same data (mech.py)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import worker
from worker import Fail, Out
from mech import *
from mechgen import *
from pymbs.symbolics import VarKind

def state_env(m, q, qd, extra=None):
    n = len(q)
    env = {"q": np.matrix(q).T if n > 1 else float(q[0]), "qd": np.matrix(qd).T if n > 1 else float(qd[0]), "time": .37, "g": m.g}
    env.update(m.params); env.update(extra or {})
    return env

def state_order(L, m):
    """coordinate indices of the model in the order of the library's state vector, checked for completeness"""
    names = {}                                                 # a joint's symbols are named after it (and its direction)
    for i, (c, (n, d)) in enumerate(zip(m.coords(), m.coord_names())):
        x = L.joint[c].name
        if x not in (n, n + "_" + d): raise Fail("state", "joint name", "joint %s has the name %s" % (n, x))
        names[x] = i
    got = [str(s) for s in L.w.state.q]
    idx = []
    for s in got:
        if not s.startswith("q_") or s[2:] not in names: raise Fail("state", "unknown state " + s, "states %s joints %s" % (got, sorted(names)))
        idx.append(names[s[2:]])
    if sorted(idx) != list(range(m.ndof())): raise Fail("state", "states missing or doubled", "states %s joints %s" % (got, sorted(names)))
    return idx

def describe(m):
    return {"g": list(m.gdir), "bodies": [(b["name"], b["mass"], b["cg"], [[num(x) for x in r] for r in b["I"]], b["frames"]) for b in m.bodies],
            "joints": m.joints, "wframes": m.wframes, "params": m.params, "loads": [{k: v for k, v in l.items() if k != "value"} for l in m.loads]}

def generate(m, gen, opts, before=None, lib=None):
    """model entered, equations generated; everything the library raises here is a refusal of a sound model"""
    try:
        with quiet():
            L = lib() if lib else Lib(m)
            if before: before(L)
            getattr(L.w.genEquations, gen)(**opts)
    except worker.CaseTimeout: raise
    except (KeyboardInterrupt, SystemExit): raise
    except BaseException as e:
        import traceback
        raise Fail("refused", "%s %s: %s" % (gen, type(e).__name__, str(e)[:80]), traceback.format_exc()[-1500:] + json.dumps(describe(m), default=str))
    return L

def cmp(what, got, ref, tol=1e-7, info=""):
    got, ref = np.asarray(got, float).ravel(), np.asarray(ref, float).ravel()
    if got.shape != ref.shape: raise Fail("shape", what, "%s instead of %s values; %s" % (got.shape, ref.shape, info))
    d = np.abs(got - ref); lim = tol * (1 + np.max(np.abs(ref)) if len(ref) else 1)
    if not (np.all(np.isfinite(got)) and np.all(d <= lim)):
        raise Fail("value", what, "got %s expected %s; %s" % (got.tolist(), ref.tolist(), info))

import json
np.seterr(all="ignore")
def run_eq(E, env, what, m):
    try:
        r = E.run(env)
        for k in ("der_q", "der_qd"):
            sh, n = np.shape(r[k]), m.ndof()
            if sh != ((n, 1) if n > 1 else ()): raise Fail("shape", "%s %s" % (what, k), "shape %s for %d coordinates; %s" % (sh, n, json.dumps(describe(m), default=str)[:2500]))
        return r
    except Fail: raise
    except worker.CaseTimeout: raise
    except Exception as e:
        raise Fail("run", "%s %s: %s" % (what, type(e).__name__, str(e)[:80]), json.dumps(describe(m), default=str)[:2500])

def gens_for(m, rng, explicit):
    gens = ["Recursive", "OrderN"]
    if m.ndof() <= 3 and rng.random() < explicit: gens.append("Explicit")
    return gens

def opts_for(rng, gen):
    o = {}
    if rng.random() < .4: o["graphOptimizations"] = rng.random() < .5
    if rng.random() < .1: o["simplify"] = True
    return o

# ------------------------------------------------------------------ M01
def newton(out, rng, idx, tier):
    small = rng.random() < .35
    m = good_model(rng, maxbodies=2 if small else 4, maxdof=3 if small else rng.choice([4, 6, 8]))
    for gen in gens_for(m, rng, .5 if small else .1):
        o = opts_for(rng, gen)
        L = generate(m, gen, o)
        order = state_order(L, m)
        E = Equations(L.w.graph, VarKind.Der_State)
        for _ in range(3):
            q, qd = random_state(rng, m.ndof(), rng.random() < .3)
            ref, M, h, _l = m.acc(q, qd)
            if np.linalg.cond(M) > 1e7: continue
            env = run_eq(E, state_env(m, q[order], qd[order]), gen, m)
            info = "q %s qd %s opts %s model %s" % (q.tolist(), qd.tolist(), o, json.dumps(describe(m), default=str))
            cmp(gen + " der(q)", env["der_q"], qd[order], info=info)
            tol = 1e-9 * max(10, np.linalg.cond(M))
            cmp(gen + " der(qd)", env["der_qd"], ref[order], tol, info=info)
            out.inc("comparisons", 2 * m.ndof()); out.inc("states")
        out.group("generators", gen); out.group("assignments", str(len(E.list) // 40 * 40))
    out.group("dofs", str(m.ndof())); out.group("bodies", str(len(m.bodies)))
    out.inc("distinct", 1 if m.ndof() > 1 else 0)
    if any(j["child"][1] >= 0 for j in m.joints): out.inc("joints_at_child_frames")
    if any(len(j["dofs"]) > 1 for j in m.joints): out.inc("composite_joints")
    out.sample({"dofs": [j["dofs"] for j in m.joints], "params": len(m.params), "idx": idx})

# ------------------------------------------------------------------ M02
def far_apart(m, F, lim=.05):
    return all(l["kind"] != "PtPForce" or np.linalg.norm(m.at(F, l["a"]).r - m.at(F, l["b"]).r) > lim for l in m.loads)

def loads(out, rng, idx, tier):
    small = rng.random() < .3
    m = good_model(rng, maxbodies=2 if small else 3, maxdof=2 if small else rng.choice([3, 5]))
    add_loads(rng, m, rng.choice([1, 1, 2, 3]))
    if not m.loads: out.inc("skipped"); return
    for gen in gens_for(m, rng, .4 if small else 0):
        o = opts_for(rng, gen)
        L = generate(m, gen, o, before=lambda L: [l["enter"](L) for l in m.loads])
        order = state_order(L, m)
        E = Equations(L.w.graph, VarKind.Der_State)
        for _ in range(3):
            q, qd = random_state(rng, m.ndof())
            inp = random_inputs(rng, m)
            F = m.kin(q, qd, np.zeros(m.ndof()))
            if not far_apart(m, F): out.inc("coincident_points"); continue
            ref, M, h, _l = m.acc(q, qd, inp)
            if np.linalg.cond(M) > 1e7: continue
            env = run_eq(E, state_env(m, q[order], qd[order], input_env(inp)), gen, m)
            info = "q %s qd %s inputs %s opts %s model %s" % (q.tolist(), qd.tolist(), inp, o, json.dumps(describe(m), default=str))
            cmp("%s der(qd) %s" % (gen, "+".join(sorted(l["kind"] + ":" + l["what"] for l in m.loads))[:80]), env["der_qd"], ref[order],
                1e-9 * max(10, np.linalg.cond(M)) * (1 + np.max(np.abs(h))), info=info)
            out.inc("comparisons", m.ndof()); out.inc("states")
        out.group("generators", gen)
    for l in m.loads:
        out.group("loads", l["kind"] + "/" + l["what"])
        if l["kind"] != "Joint":
            if l["a"][0] == l["b"][0]: out.inc("same_body_loads")
            if l["ref"] is not None: out.inc("loads_in_other_reference")
    out.inc("distinct")
    out.sample({"loads": [(l["kind"], l["what"]) for l in m.loads], "dofs": [j["dofs"] for j in m.joints], "idx": idx})

# ------------------------------------------------------------------ M03
def body_at(rng, m): return (rng.randrange(len(m.bodies)), -1)

class SG:
    """adds sensors; every entry has enter(L) -> [names of results] and value(X) -> [arrays]; X carries the motion and the state"""
    def __init__(s, rng, m): s.rng, s.m, s.k, s.list, s.used = rng, m, 0, [], set()
    def nm(s):
        s.k += 1; return s.rng.choice(["sens%d", "S_%d", "pos%d_b", "x_%d"]) % s.k
    def add(s, kinds):
        r, m = s.rng, s.m; kind = r.choice(kinds); n = s.nm()
        kw = {"name": n + "_n"} if r.random() < .6 else {}
        def put(enter, value, names=None, what=None): s.list.append(dict(kind=what or kind, enter=enter, value=value, names=names or [n]))
        if kind in ("Position", "Velocity", "Acceleration", "AngularVelocity", "AngularAcceleration"):
            a, b = any_frame(r, m), any_frame(r, m); ref = any_frame(r, m) if r.random() < .5 else None
            att = {"Position": "r", "Velocity": "v", "Acceleration": "a", "AngularVelocity": "w", "AngularAcceleration": "al"}[kind]
            def enter(L):
                k = dict(kw)
                if ref is not None: k["CSref"] = L.at(ref)
                getattr(L.w.addSensor, kind)(n, L.at(a), L.at(b), **k)
            put(enter, lambda X: [X.at(ref or a).R.T @ (getattr(X.at(b), att) - getattr(X.at(a), att))])
        elif kind == "Orientation":
            a, b = any_frame(r, m), any_frame(r, m)
            put(lambda L: L.w.addSensor.Orientation(n, L.at(a), L.at(b), **kw), lambda X: [X.at(a).R.T @ X.at(b).R])
        elif kind == "Distance":
            a, b = any_frame(r, m), any_frame(r, m)
            if a[0] == b[0]: return
            def value(X):
                A, B = X.at(a), X.at(b); x = A.r - B.r; l = np.linalg.norm(x)
                return [np.array([l, x @ (A.v - B.v) / l])] if l > .05 else [None]
            put(lambda L: L.w.addSensor.Distance(n, L.at(a), L.at(b), **kw), value)
        elif kind == "Joint":
            c = r.choice(m.coords()); i = m.coord_index(*c)
            if c in s.used: return                             # one sensor per joint
            s.used.add(c)
            put(lambda L: L.w.addSensor.Joint(n, L.joint[c], **kw), lambda X: [np.array([X.q[i], X.qd[i]])])
        elif kind == "Energy":
            b = r.randrange(len(m.bodies))
            put(lambda L: L.w.addSensor.Energy(n, L.body[b], **kw), lambda X: [X.energy(b)])
        elif kind == "EnergyAll":
            if any(x["kind"] == kind for x in s.list): return
            put(lambda L: L.w.addSensor.Energy(n, L.w, **kw), lambda X: [sum(X.energy(b) for b in range(len(m.bodies)))])
        elif kind == "CenterofMass":
            bs = None if r.random() < .4 else sorted(r.sample(range(len(m.bodies)), r.randint(1, len(m.bodies))))
            if r.random() < .5 and bs: bs.reverse()
            ids = range(len(m.bodies)) if bs is None else bs
            if sum(m.body_props(b)[0] for b in ids) == 0: return
            def value(X):
                M = sum(m.body_props(b)[0] for b in ids)
                return [M, sum(m.body_props(b)[0] * X.cg(b).r for b in ids) / M]
            def enter(L):
                if bs is None: L.w.addSensor.CenterofMass(n, **kw)
                else: L.w.addSensor.CenterofMass(n, [L.body[b] for b in bs], **kw)
            put(enter, value, [n + "_Mass", n + "_r"])
        elif kind in ("ConstraintForce", "ConstraintTorque"):
            c = r.choice(m.coords())
            put(lambda L: getattr(L.w.addSensor, kind)(n, L.joint[c], **kw), lambda X: [X.joint_load(c)[0 if kind == "ConstraintForce" else 1]])
        elif kind == "MotionSystem":
            a = any_frame(r, m, 0)
            if a[1] < 0: return
            put(lambda L: L.w.addMotionSystemSensors(L.at(a), name=n),
                lambda X: [X.at(a).r, X.at(a).R] + [X.at(a).R.T @ getattr(X.at(a), k) for k in ("v", "w", "a", "al")],
                [p + n for p in ("r_", "T_", "v_", "om_", "a_", "dom_")])
        elif kind == "Graphic":
            a = any_frame(r, m)
            put(lambda L: L.w.addGraphicSensors(L.at(a), n), lambda X: [X.at(a).r, X.at(a).R], ["r_" + n, "T_" + n])
        elif kind == "Tyre":
            a, b = any_frame(r, m, 0), any_frame(r, m, 0)
            if a[1] < 0 or b[1] < 0: return
            m.inputs2 = getattr(m, "inputs2", {}); m.inputs2["F_" + n] = (3,); m.inputs2["M_" + n] = (3,)
            for k, f in (("CmpForce", "F_"), ("CmpTorque", "M_")):
                m.loads.append(dict(kind=k, a=b, b=(-1, -1), ref=a, value=lambda F, i, f=f: np.array(i[f + n]), what="addTyre", enter=lambda L: None))
            put(lambda L: L.w.addTyreSensorsLoads(n, L.at(a), L.at(b)), lambda X: [X.at(a).r, X.at(a).R.T, X.at(a).R.T @ X.at(a).v, X.at(a).R.T @ X.at(a).w],
                [p + n for p in ("r_", "T_", "v_", "om_")])
        elif kind == "Contact":
            a = any_frame(r, m, 0)
            if a[1] < 0: return
            m.inputs2 = getattr(m, "inputs2", {}); m.inputs2["F_" + n] = (3,); m.inputs2["M_" + n] = (3,)
            for k, f in (("CmpForce", "F_"), ("CmpTorque", "M_")):
                m.loads.append(dict(kind=k, a=a, b=(-1, -1), ref=(-1, -1), value=lambda F, i, f=f: np.array(i[f + n]), what="addContact", enter=lambda L: None))
            put(lambda L: L.w.addContactSensorsLoads(n, L.at(a)), lambda X: [X.at(a).r, X.at(a).R, X.at(a).v, X.at(a).w],
                [p + n for p in ("r_", "T_", "v_", "om_")])

class State:
    """everything the sensors of a model may show at one state"""
    def __init__(X, m, q, qd, qdd, inp):
        X.m, X.q, X.qd, X.qdd = m, q, qd, qdd
        X.F = m.kin(q, qd, qdd); X.el = m.el
        X.ext, X.gen = m.load_forces(X.F, inp)
    def at(X, bf): return X.m.at(X.F, bf)
    def cg(X, b): return X.F[b].fixed(X.m.body_props(b)[1], np.eye(3))
    def energy(X, b):
        mass, cg, I = X.m.body_props(b); c = X.cg(b); I = c.R @ I @ c.R.T
        return -mass * X.m.gvec() @ c.r + .5 * mass * c.v @ c.v + .5 * c.w @ I @ c.w
    def joint_load(X, coord):
        """force and torque of elementary joint (name, i) on what it carries, without the load applied in it, about the carried side's origin"""
        m = X.m; j = [j for j in m.joints if j["name"] == coord[0]][0]; k = m.coord_index(*coord)
        o = X.el[coord].dof(j["dofs"][coord[1]], X.q[k], X.qd[k], X.qdd[k]).r
        sub = {j["child"][0]}
        for x in m.order():
            if x["par"][0] in sub: sub.add(x["child"][0])
        F = np.zeros(3); L = np.zeros(3)
        for b in sub:
            mass, cg, I = m.body_props(b); c = X.cg(b); I = c.R @ I @ c.R.T
            f = mass * (c.a - m.gvec()); F += f
            L += I @ c.al + np.cross(c.w, I @ c.w) + np.cross(c.r - o, f)
        for b, p, f, t in X.ext:
            if b in sub:
                F -= f; L -= t + np.cross(X.F[b].fixed(p, np.eye(3)).r - o, f)
        for kk, v in X.gen:
            if kk == k:
                d = j["dofs"][coord[1]]; e = X.el[coord].R @ AX[d[1]]
                if d[0] == "T": F -= e * v
                else: L -= e * v
        return F, L

SENS = ["Position", "Velocity", "Acceleration", "AngularVelocity", "AngularAcceleration", "Orientation", "Distance", "Joint", "Energy",
        "EnergyAll", "CenterofMass", "MotionSystem", "Graphic", "Tyre", "Contact"]
def sensors(out, rng, idx, tier):
    small = rng.random() < .35
    m = good_model(rng, maxbodies=2 if small else 3, maxdof=2 if small else rng.choice([3, 5]))
    if rng.random() < .4: add_loads(rng, m, rng.choice([1, 2]))
    sg = SG(rng, m)
    for _ in range(rng.choice([2, 4, 6])): sg.add(SENS)
    gens = gens_for(m, rng, .5 if small else 0)
    if rng.random() < .3:
        for _ in range(2): sg.add(["ConstraintForce", "ConstraintTorque"])
        gens = ["Recursive"]
    if not sg.list: out.inc("skipped"); return
    late = rng.random() < .5
    only = gens != ["Recursive"] and not any(x["kind"] in ("Acceleration", "AngularAcceleration", "MotionSystem") for x in sg.list) and rng.random() < .5      # positions and velocities only
    for gen in gens:
        o = opts_for(rng, gen)
        if only: o["kinematicsOnly"] = True
        def before(L):
            for l in (sg.list + m.loads if late else m.loads + sg.list): l["enter"](L)
        L = generate(m, gen, o, before=before)
        order = state_order(L, m)
        E = Equations(L.w.graph, [VarKind.Der_State, VarKind.Sensor])
        for _ in range(3):
            q, qd = random_state(rng, m.ndof())
            inp = random_inputs(rng, m)
            if not far_apart(m, m.kin(q, qd, np.zeros(m.ndof()))): out.inc("coincident_points"); continue
            qdd, M, h, _l = m.acc(q, qd, inp)
            if np.linalg.cond(M) > 1e6: continue
            extra = input_env(inp)
            if only:
                qdd = np.array([rng.uniform(-5, 5) for _ in qdd])
                extra["qdd"] = np.matrix(qdd[order]).T if len(qdd) > 1 else float(qdd[0])
            env = run_eq(E, state_env(m, q[order], qd[order], extra), gen, m)
            X = State(m, q, qd, qdd, inp)
            info = "q %s qd %s inputs %s opts %s model %s" % (q.tolist(), qd.tolist(), inp, o, json.dumps(describe(m), default=str))
            for s in sg.list:
                for n, v in zip(s["names"], s["value"](X)):
                    if v is None: continue
                    if n not in env: raise Fail("missing", "%s %s" % (gen, s["kind"]), "no equation for sensor %s; %s" % (n, info))
                    got = env[n]
                    if np.ndim(v) == 2 and np.shape(got) != (3, 3): raise Fail("shape", s["kind"], "shape %s of %s; %s" % (np.shape(got), n, info))
                    cmp("%s %s" % (gen, s["kind"]), got, v, 1e-9 * max(10, np.linalg.cond(M)) * (1 + np.max(np.abs(h))), info=n + " " + info)
                    out.inc("comparisons"); out.group("sensors", s["kind"])
            out.inc("states")
        out.group("generators", gen + (" kinematics" if only else ""))
    out.inc("distinct")
    out.sample({"sensors": [s["kind"] for s in sg.list], "dofs": [j["dofs"] for j in m.joints], "loads": len(m.loads), "idx": idx})

# ------------------------------------------------------------------ M04
def check_model(out, rng, m, sg, what, base=None, mapping=None, gens=None, only_numbers=False, order=None, joint_order=None, states=2):
    """the library's equations of m (with sensors sg, loads of m) against the reference of base at mapped coordinates"""
    base = base or m
    for gen in gens or gens_for(m, rng, .3 if m.ndof() <= 2 else 0):
        o = opts_for(rng, gen)
        def mk():
            with quiet(): return Lib(m, order=order, only_numbers=only_numbers, joint_order=joint_order)
        L = generate(m, gen, o, before=lambda L: [l["enter"](L) for l in m.loads + (sg.list if sg else [])], lib=mk)
        idx = state_order(L, m)
        E = Equations(L.w.graph, [VarKind.Der_State, VarKind.Sensor])
        for _ in range(states):
            n = base.ndof()
            q, qd = random_state(rng, n); inp = random_inputs(rng, base)
            if not far_apart(base, base.kin(q, qd, np.zeros(n))): continue
            qdd, M, h, _l = base.acc(q, qd, inp)
            if np.linalg.cond(M) > 1e6: continue
            k = mapping or list(range(n))                      # coordinate i of m is coordinate k[i] of base
            sel = [k[i] for i in idx]
            env = run_eq(E, state_env(m, q[sel], qd[sel], input_env(inp)), gen + " " + what, m)
            info = "%s q %s qd %s inputs %s opts %s model %s" % (what, q.tolist(), qd.tolist(), inp, o, json.dumps(describe(m), default=str))
            tol = 1e-9 * max(10, np.linalg.cond(M)) * (1 + np.max(np.abs(h)))
            cmp("%s %s der(q)" % (gen, what), env["der_q"], qd[sel], info=info)
            cmp("%s %s der(qd)" % (gen, what), env["der_qd"], qdd[sel], tol, info=info)
            out.inc("comparisons", 2 * n); out.inc("states")
            if not sg: continue
            X = State(base, q, qd, qdd, inp)
            for s in sg.list:
                for n_, v in zip(s["names"], s["value"](X)):
                    if v is None: continue
                    if n_ not in env: raise Fail("missing", "%s %s %s" % (gen, what, s["kind"]), "no equation for sensor %s; %s" % (n_, info))
                    cmp("%s %s %s" % (gen, what, s["kind"]), env[n_], v, tol, info=n_ + " " + info)
                    out.inc("comparisons"); out.group("sensors", s["kind"])
        out.group("generators", gen)

def welds(out, rng, idx, tier):
    for _ in range(40):
        m = good_model(rng, maxbodies=rng.choice([2, 3, 4]), maxdof=4, welds=.5)
        if any(not j["dofs"] for j in m.joints): break
    else: out.inc("skipped"); return
    if rng.random() < .3: add_loads(rng, m, rng.choice([1, 2]))
    sg = SG(rng, m)
    for _ in range(rng.choice([0, 2, 3])): sg.add(["Position", "Velocity", "Acceleration", "AngularVelocity", "Orientation", "Distance", "Graphic", "Energy", "EnergyAll", "CenterofMass"])
    n = sum(not j["dofs"] for j in m.joints)
    check_model(out, rng, m, sg, "weld")
    out.inc("distinct"); out.group("welds", str(n))
    if any(not j["dofs"] and j["child"][1] >= 0 for j in m.joints): out.inc("welds_at_child_frames")
    if any(not j["dofs"] and j["par"][0] < 0 for j in m.joints): out.inc("welds_to_world")
    out.sample({"dofs": [j["dofs"] for j in m.joints], "pars": [j["par"] for j in m.joints], "idx": idx})

import copy
def lit(x): return ("lit", float(x))
def plain(m):
    """copy without loads, everything a number"""
    n = Model(); n.gdir = list(m.gdir); n.g = m.g
    fr = lambda l: [(a, b, [lit(num(x)) for x in p], [(ax, lit(num(v))) for ax, v in sq]) for a, b, p, sq in l]
    n.wframes = fr(m.wframes)
    n.bodies = [dict(name=b["name"], mass=lit(num(b["mass"])), cg=[lit(num(x)) for x in b["cg"]], I=[[lit(num(x)) for x in r] for r in b["I"]], frames=fr(b["frames"]), six=b.get("six")) for b in m.bodies]
    n.joints = copy.deepcopy(m.joints)
    return n
def v_numbers(rng, m): return m, None, dict(only_numbers=True)
def v_order(rng, m):
    o = list(range(len(m.bodies))); rng.shuffle(o)
    j = list(m.joints); rng.shuffle(j)
    return m, None, dict(order=o, joint_order=j)
def euler_of(R):
    """angles of a rotation as rotations about z, y, x one after the other"""
    b = math.asin(max(-1, min(1, -R[2, 0])))
    if abs(math.cos(b)) < 1e-6: return None
    return [("z", lit(math.atan2(R[1, 0], R[0, 0]))), ("y", lit(b)), ("x", lit(math.atan2(R[2, 1], R[2, 2])))]
def v_flat(rng, m):
    """frames stated directly on the body"""
    n = plain(m)
    for b in range(-1, len(m.bodies)):
        new = []
        for f, (name, par, p, sq) in enumerate(m.frames(b)):
            P, R = m.frame_T(b, f); e = euler_of(R)
            if e is None: return None
            new.append((name, -1, [lit(x) for x in P], e))
        if b < 0: n.wframes = new
        else: n.bodies[b]["frames"] = new
    return n, None, {}
def v_nested(rng, m):
    """every frame reached through an extra one in between"""
    n = plain(m)
    for b in range(-1, len(m.bodies)):
        new, pos = [], {}
        for f, (name, par, p, sq) in enumerate(n.frames(b)):
            k = rng.randint(0, len(sq)); mid = len(new)
            R = rotseq(sq[:k]); t = np.array([half(rng, -.5, .5) for _ in range(3)])
            new.append(("mid%d" % f, pos.get(par, -1), [lit(x) for x in t], sq[:k]))
            new.append((name, mid, [lit(x) for x in R.T @ (nums(p) - t)], sq[k:]))
            pos[f] = mid + 1
        if b < 0: n.wframes = new
        else: n.bodies[b]["frames"] = new
        for j in n.joints:
            for side in ("par", "child"):
                if j[side][0] == b and j[side][1] >= 0: j[side] = (b, pos[j[side][1]])
        n.framemap = getattr(n, "framemap", {}); n.framemap[b] = pos
    return n, None, {}
def v_chain(rng, m):
    """composite joints as chains of massless bodies"""
    if not any(len(j["dofs"]) > 1 for j in m.joints): return None
    n = copy.copy(m); n.bodies = list(m.bodies); n.joints = []; mp = []; off = m.offsets()
    for j in m.joints:
        if len(j["dofs"]) < 2: n.joints.append(j); mp += range(off[j["name"]], off[j["name"]] + len(j["dofs"])); continue
        last = j["par"]
        for i, d in enumerate(j["dofs"]):
            if i == len(j["dofs"]) - 1: c = j["child"]
            else:
                n.bodies.append(dict(name="thin_%s_%d" % (j["name"], i), mass=lit(0), cg=[lit(0)] * 3, I=[[lit(0)] * 3] * 3, frames=[])); c = (len(n.bodies) - 1, -1)
            n.joints.append(dict(name="%s_e%d" % (j["name"], i), par=last, child=c, dofs=[d], str=True)); last = c; mp.append(off[j["name"]] + i)
    return n, mp, {}
def v_origin(rng, m):
    """another point and orientation as the body's frame"""
    n = plain(m)
    for b in range(len(n.bodies)):
        B = n.bodies[b]; t = np.array([half(rng, -.6, .6) for _ in range(3)]); sq = [(rng.choice("xyz"), lit(half(rng, -2, 2))) for _ in range(2)]
        A = rotseq(sq)                                         # old frame at (t, A) in the new one
        mass, cg, I = m.body_props(b)
        B["cg"] = [lit(x) for x in t + A @ cg]; B["I"] = [[lit(x) for x in r] for r in A @ I @ A.T]; B["six"] = False
        B["frames"] = [("oldframe", -1, [lit(x) for x in t], sq)] + [(a, par + 1, p, s_) for a, par, p, s_ in B["frames"]]
        for j in n.joints:
            for side in ("par", "child"):
                if j[side][0] == b: j[side] = (b, j[side][1] + 1)
    n.shift = 1
    return n, None, {}
def v_split(rng, m):
    """a body as two or three bodies welded together"""
    n = plain(m); b = rng.randrange(len(n.bodies)); B = n.bodies[b]
    mass, cg, I = m.body_props(b)
    parts = []; left, first, second = mass, mass * cg, I + mass * (cg @ cg * np.eye(3) - np.outer(cg, cg))
    for k in range(rng.choice([1, 1, 2])):
        mk = mass * rng.uniform(.1, .4); ck = np.array([half(rng, -.4, .4) for _ in range(3)]); Ik = np.diag([half(rng, .01, .2)] * 3) + .01 * np.ones((3, 3))
        parts.append((mk, ck, Ik)); left -= mk; first = first - mk * ck; second = second - Ik - mk * (ck @ ck * np.eye(3) - np.outer(ck, ck))
    c0 = first / left if left else np.zeros(3)
    B["mass"] = lit(left); B["cg"] = [lit(x) for x in c0]; B["six"] = False
    B["I"] = [[lit(x) for x in r] for r in second - left * (c0 @ c0 * np.eye(3) - np.outer(c0, c0))]
    last = (b, -1); P, R = np.zeros(3), np.eye(3)
    for k, (mk, ck, Ik) in enumerate(parts):
        t = np.array([half(rng, -.5, .5) for _ in range(3)]); sq = [(rng.choice("xyz"), lit(half(rng, -2, 2)))]; A = rotseq(sq)
        # a frame "weldk" at (t, A) on the body before, on which the part's frame "sock" (at (u, D) of the part) sits
        f = len(n.bodies[last[0]]["frames"]); n.bodies[last[0]]["frames"].append(("weld%d" % k, -1, [lit(x) for x in t], sq))
        P, R = P + R @ t, R @ A
        new = dict(name="part%d_of_%s" % (k, B["name"]), frames=[]); n.bodies.append(new); nb = len(n.bodies) - 1; child = (nb, -1)
        if rng.random() < .6:
            u = np.array([half(rng, -.5, .5) for _ in range(3)]); sd = [(rng.choice("xyz"), lit(half(rng, -2, 2)))]; D = rotseq(sd)
            new["frames"].append(("sock", -1, [lit(x) for x in u], sd)); child = (nb, 0)
            P, R = P - R @ D.T @ u, R @ D.T
        new.update(mass=lit(mk), cg=[lit(x) for x in R.T @ (ck - P)], I=[[lit(x) for x in r] for r in R.T @ Ik @ R])
        n.joints.append(dict(name="glue%d" % k, par=(last[0], f), child=child, dofs=[]))
        last = (nb, -1) if rng.random() < .5 else (b, -1)
        if last[0] == b: P, R = np.zeros(3), np.eye(3)
    return n, None, {}
def v_spacer(rng, m):
    """a massless body welded in front of a joint"""
    n = plain(m); j = rng.choice(n.joints); b, f = j["par"]
    n.bodies.append(dict(name="spacer", mass=lit(0), cg=[lit(0)] * 3, I=[[lit(0)] * 3] * 3, frames=[]))
    n.joints.insert(rng.randint(0, len(n.joints)), dict(name="glue_sp", par=(b, f), child=(len(n.bodies) - 1, -1), dofs=[]))
    j["par"] = (len(n.bodies) - 1, -1)
    return n, None, {}
VARIANTS = dict(numbers=v_numbers, order=v_order, flat=v_flat, nested=v_nested, chain=v_chain, origin=v_origin, split=v_split, spacer=v_spacer)

def variants(out, rng, idx, tier):
    kind = rng.choice(sorted(VARIANTS))
    for _ in range(20):
        m = good_model(rng, maxbodies=3, maxdof=rng.choice([2, 4, 5]), zero_mass=kind != "split")
        r = VARIANTS[kind](rng, m)
        if r: break
    else: out.inc("skipped"); return
    n, mp, kw = r
    q, qd = random_state(rng, m.ndof())                        # the description really is another one of the same mechanism
    k = mp or list(range(m.ndof()))
    A, B = m.acc(q, qd)[0], n.acc(q[k], qd[k])[0]
    if np.max(np.abs(A[k] - B)) > 1e-6 * (1 + np.max(np.abs(A))): raise Fail("harness", kind, "reference of the variant differs: %s %s" % (A[k], B))
    # sensors between body frames, stated on the variant, expected from the base
    sg, sn = SG(rng, m), SG(rng, n); sg.k = sn.k
    pick = []
    for _ in range(rng.choice([1, 3])):
        b, c = rng.randrange(-1, len(m.bodies)), rng.randrange(-1, len(m.bodies))
        ff = lambda b: rng.randrange(-1, len(m.frames(b)))
        a1, a2 = (b, ff(b)), (c, ff(c)); kd = rng.choice(["Position", "Velocity", "AngularVelocity", "Orientation", "Acceleration"])
        def on(bf):
            b, f = bf
            if b >= 0 and getattr(n, "shift", 0): return (b, f + 1)
            if f >= 0 and hasattr(n, "framemap"): return (b, n.framemap[b][f])
            return bf
        att = {"Position": "r", "Velocity": "v", "Acceleration": "a", "AngularVelocity": "w"}.get(kd)
        nm = "vs%d" % len(pick)
        value = (lambda X, a1=a1, a2=a2: [X.at(a1).R.T @ X.at(a2).R]) if kd == "Orientation" else (lambda X, a1=a1, a2=a2, att=att: [X.at(a1).R.T @ (getattr(X.at(a2), att) - getattr(X.at(a1), att))])
        pick.append(dict(kind=kd, names=[nm], value=value, enter=lambda L, a1=on(a1), a2=on(a2), kd=kd, nm=nm: getattr(L.w.addSensor, kd)(nm, L.at(a1), L.at(a2))))
    sg.list = pick
    check_model(out, rng, n, sg, kind, base=m, mapping=mp, **kw)
    out.inc("distinct"); out.group("variants", kind)
    out.sample({"variant": kind, "dofs": [j["dofs"] for j in m.joints], "idx": idx})

MODES = {"variants": variants, "welds": welds, "sensors": sensors, "loads": loads, "newton": newton}
if __name__ == "__main__":
    worker.run(sys.argv[1], MODES[sys.argv[1]], sys.argv[2:], 100)
