"""Random mechanisms (mech.Model): trees of rigid bodies, nested and rotated frames, parameters, gravity."""
import math
import numpy as np
from mech import *

DOFS = ["Tx", "Ty", "Tz", "Rx", "Ry", "Rz"]
SUFF = ["", "_1", "A", "_b", "2", "_long_name", "Z"]
COMPOSITES = [["Rx", "Ry", "Rz"], ["Rz", "Rx"], ["Tx", "Ty", "Rz"], ["Tx", "Ty", "Tz", "Rx", "Ry", "Rz"], ["Tz", "Ry"], ["Rz", "Ty"],
              ["Rx", "Ty"], ["Ry", "Rz", "Tx"], ["Tx", "Tz"], ["Rz", "Ry", "Rx"]]

def half(rng, lo, hi, k=4):
    """a short decimal number (so that every target and every print of it is exact enough)"""
    return round(rng.uniform(lo, hi), k)

class MG:
    def __init__(g, rng, maxbodies=4, maxdof=6, composites=True, params=True, child_frames=True, par_frames=True, zero_mass=True,
                 rotated=True, formulas=False, welds=0):
        g.rng, g.maxbodies, g.maxdof = rng, maxbodies, maxdof
        g.composites, g.use_params, g.child_frames, g.par_frames, g.zero_mass, g.rotated, g.formulas = composites, params, child_frames, par_frames, zero_mass, rotated, formulas
        g.names = set(); g.welds = welds
    def name(g, pre):
        while True:
            n = pre + str(g.rng.randint(0, 60)) + g.rng.choice(SUFF)
            if pre in ("body", "j") and g.names and g.rng.random() < .15: n = g.rng.choice(sorted(g.names)) + "_" + g.rng.choice(["1", "tip", "b2", "cs"])
            if n not in g.names: g.names.add(n); return n
    def value(g, lo, hi, positive=False):
        r = g.rng
        x = half(r, lo, hi)
        if positive and x <= 0: x = 0.5
        if not g.use_params or r.random() < .5: return ("lit", x)
        if g.m.params and r.random() < .3:
            n = r.choice(sorted(g.m.params)); f = r.choice([1, 2, 0.5, -1] if not positive else [1, 2, 0.5])
            return ("par", n, f, g.m.params[n])
        n = g.name(r.choice(["p", "c_", "Par", "m_"])); d = abs(x) + .1 if positive else (x or .25)
        d = round(d, 4); g.m.params[n] = d
        return ("par", n, 1, d)
    def vec(g, s=.8, zero=.3):
        r = g.rng
        if r.random() < zero: return [("lit", 0.0)] * 3
        return [("lit", 0.0) if r.random() < .35 else g.value(-s, s) for _ in range(3)]
    def seq(g, p_rot=.5):
        r = g.rng
        if not g.rotated or r.random() > p_rot: return []
        out = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            k = r.random()
            a = ("lit", r.choice([math.pi / 2, -math.pi / 2, math.pi])) if k < .3 else g.value(-2.5, 2.5)
            out.append((r.choice("xyz"), a))
        return out
    def mass_props(g):
        """mass, cg, inertia about the centre of gravity (a physical one)"""
        r = g.rng
        mass = g.value(.2, 4, True)
        cg = g.vec(.6, .25)
        k = r.random()
        if k < .45:                                            # diagonal
            x, y, z = (half(r, .05, 1.0) for _ in range(3))
            I = np.diag([y + z, x + z, x + y])
        elif k < .85:                                          # full
            pts = np.array([[half(r, -.7, .7, 2) for _ in range(3)] for _ in range(4)])
            I = sum(np.dot(p, p) * np.eye(3) - np.outer(p, p) for p in pts) + .02 * np.eye(3)
        elif k < .93: I = np.zeros((3, 3))
        else: I = np.diag([half(r, .05, 1.0)] * 3)
        I = np.round(I, 6)
        If = [[("lit", float(I[i, j])) for j in range(3)] for i in range(3)]
        if g.use_params and r.random() < .4:
            i = r.randrange(3); n = g.name("I_")
            if I[i, i] > 0: g.m.params[n] = float(I[i, i]); If[i][i] = ("par", n, 1, float(I[i, i]))
        return mass, cg, If
    def frames(g, n):
        r = g.rng; out = []
        for i in range(n):
            par = -1 if not out or r.random() < .5 else r.randrange(len(out))
            n = r.choice(["tip", "cs", "b2", "end_tip", "left"])
            if r.random() < .6 or n in [o[0] for o in out]: n = g.name("cs")
            out.append((n, par, g.vec(.7, .2), g.seq()))
        return out
    def dofs(g, left):
        r = g.rng
        if g.composites and left > 1 and r.random() < .35:
            c = [c for c in COMPOSITES if len(c) <= left]
            return list(r.choice(c))
        return [r.choice(DOFS)]
    def build(g):
        r = g.rng; m = g.m = Model()
        for n, ax in (("w", 0),): pass
        k = r.random()
        if k < .5: m.gdir = r.choice([[0, 0, -1], [0, -1, 0], [-1, 0, 0], [0, 0, 1]])
        elif k < .6: m.gdir = [0, 0, 0]
        else: m.gdir = [half(r, -1, 1, 2) for _ in range(3)]
        m.wframes = g.frames(r.choice([0, 0, 1, 2]))
        nb = r.randint(1, g.maxbodies)
        left = g.maxdof
        for b in range(nb):
            mass, cg, I = g.mass_props()
            m.bodies.append(dict(name=g.name("body"), mass=mass, cg=cg, I=I, frames=g.frames(r.choice([0, 1, 1, 2, 3])), six=r.random() < .3))
        for b in range(nb):
            pb = r.randrange(-1, b) if b and r.random() < .8 else -1
            if b and r.random() < .5: pb = b - 1
            pf = r.randrange(-1, len(m.frames(pb))) if g.par_frames else -1
            cf = r.randrange(-1, len(m.frames(b))) if g.child_frames and r.random() < .3 else -1
            need = nb - b - 1
            d = g.dofs(max(1, left - need))
            if r.random() < g.welds: d = []
            left -= len(d)
            j = dict(name=g.name("j"), par=(pb, pf), child=(b, cf), dofs=d, str=r.random() < .5)
            if d and r.random() < .4: j["q0"] = [half(r, -1, 1) for _ in d]
            if d and r.random() < .4: j["qd0"] = [half(r, -1, 1) for _ in d]
            m.joints.append(j)
            if left <= 0: m.bodies = m.bodies[:b + 1]; break
        if g.zero_mass and len(m.bodies) > 1 and r.random() < .2:
            inner = sorted({j["par"][0] for j in m.joints if j["par"][0] >= 0})
            if inner:
                b = r.choice(inner); m.bodies[b].update(mass=("lit", 0.0), cg=[("lit", 0.0)] * 3, I=[[("lit", 0.0)] * 3] * 3, six=False)
        return m

def random_state(rng, n, big=False):
    s = 3 if big else 1.2
    return np.array([rng.uniform(-s, s) for _ in range(n)]), np.array([rng.uniform(-2, 2) for _ in range(n)])

def good_model(rng, cond=1e4, tries=50, **kw):
    """a model whose mass matrix is well conditioned at a few random states"""
    for _ in range(tries):
        m = MG(rng, **kw).build()
        n = m.ndof(); ok = n > 0
        if not ok: continue
        for _ in range(3):
            q, qd = random_state(rng, n)
            M, h = m.terms(q, qd)
            if not (np.linalg.cond(M) < cond): ok = False; break
            # every elementary joint must see inertia of its own (the order-n method divides by it)
        if ok: return m
    raise RuntimeError("no well-conditioned model found")

# ------------------------------------------------------------------ loads
def any_frame(rng, m, world=.3):
    b = -1 if rng.random() < world else rng.randrange(len(m.bodies))
    return (b, rng.randrange(-1, len(m.frames(b))))

class LG:
    """adds loads to a model; every entry has enter(L) and value(F, inp)"""
    def __init__(s, rng, m, mg=None):
        s.rng, s.m, s.k = rng, m, 0
    def inp(s, shape):
        s.k += 1; n = "u%d%s" % (s.k, s.rng.choice(["", "_in", "A"])); s.m.inputs[n] = shape; return n
    def nm(s, p):
        s.k += 1; return "%s%d" % (p, s.k)
    def param(s):
        n = s.nm("lp"); s.m.params[n] = half(s.rng, .2, 3); return n
    def scalar(s, a=None, b=None):
        """-> (enter(L) -> Symbol, value(F, inp), text)"""
        r, m = s.rng, s.m; k = r.random()
        if k < .35 or (a is None and k < .6):
            n = s.inp(None); return (lambda L: L.inp[n]), (lambda F, i: i[n]), "input"
        if k < .5:
            n = s.inp(None); p = s.param(); e = s.nm("fe"); d = m.params[p]; c = half(r, -2, 2)
            return (lambda L: L.w.addExpression(e, L.par[p] * L.inp[n] - c)), (lambda F, i: d * i[n] - c), "expression"
        if k < .6 or a is None:
            p = s.param(); d = m.params[p]
            return (lambda L: L.par[p]), (lambda F, i: d), "param"
        if k < .7:
            e = s.nm("ft"); c = half(r, -2, 2)
            return (lambda L: L.w.addExpression(e, c * L.S.sin(2 * L.w.time))), (lambda F, i: c * math.sin(2 * i["time"])), "time"
        sn, e = s.nm("sd"), s.nm("fd"); c, d, l0 = half(r, .5, 20), half(r, 0, 4), half(r, .1, 1)
        def enter(L):
            x = L.w.addSensor.Distance(sn, L.at(a), L.at(b), name=sn + "_n")
            return L.w.addExpression(e, -c * (x[0] - l0) - d * x[1])
        def value(F, i):
            A, B = m.at(F, a), m.at(F, b); x = A.r - B.r; l = np.linalg.norm(x)
            return -c * (l - l0) - d * float(x @ (A.v - B.v)) / l
        return enter, value, "spring"
    def vector(s):
        r, m = s.rng, s.m; k = r.random()
        if k < .45:
            n = s.inp((3,)); return (lambda L: L.inp[n]), (lambda F, i: np.array(i[n])), "input"
        if k < .6:
            n = s.inp((3,)); e = s.nm("ve"); c = half(r, -2, 2)
            return (lambda L: L.w.addExpression(e, c * L.inp[n])), (lambda F, i: c * np.array(i[n])), "expression"
        parts = []
        for _ in range(3):
            k = r.random()
            if k < .3: x = half(r, -2, 2); parts.append(((lambda L, x=x: x), (lambda i, x=x: x)))
            elif k < .6: n = s.inp(None); parts.append(((lambda L, n=n: L.inp[n]), (lambda i, n=n: i[n])))
            else: p = s.param(); f = r.choice([1, -1, 2]); parts.append(((lambda L, p=p, f=f: f * L.par[p]), (lambda i, p=p, f=f: f * m.params[p])))
        return (lambda L: [e(L) for e, v in parts]), (lambda F, i: np.array([float(v(i)) for e, v in parts])), "list"
    def add(s, kinds=("PtPForce", "CmpForce", "CmpTorque", "Joint", "Spring", "Cylinder", "Contact", "Tyre")):
        r, m = s.rng, s.m; kind = r.choice(kinds)
        nm = s.nm("ld"); pass_name = r.random() < .6
        kw = {"name": nm} if pass_name else {}
        if kind == "Joint":
            free = [c for c in m.coords() if c not in [l.get("joint") for l in m.loads]]
            if not free: return
            c = r.choice(free); en, va, t = s.scalar()
            m.loads.append(dict(kind="Joint", joint=c, value=va, what=t, enter=lambda L: L.w.addLoad.Joint(en(L), L.joint[c], **kw)))
            return
        for _ in range(20):
            a, b = any_frame(r, m), any_frame(r, m)
            if a[0] != b[0] or (r.random() < .2 and a != b): break
        else: return
        F = m.kin(*([np.zeros(m.ndof())] * 3))
        if a[0] == b[0] and np.linalg.norm(m.at(F, a).r - m.at(F, b).r) < .1: return
        if kind == "PtPForce":
            en, va, t = s.scalar(a, b)
            m.loads.append(dict(kind=kind, a=a, b=b, ref=None, value=va, what=t, enter=lambda L: L.w.addLoad.PtPForce(en(L), L.at(a), L.at(b), **kw)))
        elif kind == "Spring":
            c, d, l0 = half(r, .5, 20), half(r, 0, 4), half(r, .1, 1); p = s.param() if r.random() < .5 else None
            if p: c = m.params[p]
            def value(F, i):
                A, B = m.at(F, a), m.at(F, b); x = A.r - B.r; l = np.linalg.norm(x)
                return -c * (l - l0) - d * float(x @ (A.v - B.v)) / l
            m.loads.append(dict(kind="PtPForce", a=a, b=b, ref=None, value=value, what="addSpringDamper",
                                enter=lambda L: L.w.addSpringDamper(L.at(a), L.at(b), L.par[p] if p else c, d, l0, nm)))
        elif kind in ("CmpForce", "CmpTorque"):
            ref = any_frame(r, m) if r.random() < .6 else None
            en, va, t = s.vector()
            def enter(L, kind=kind):
                k = dict(kw)
                if ref is not None: k["CSref"] = L.at(ref)
                getattr(L.w.addLoad, kind)(en(L), L.at(a), L.at(b), **k)
            m.loads.append(dict(kind=kind, a=a, b=b, ref=ref, value=va, what=t, enter=enter))
        elif kind == "Cylinder":
            if a[1] < 0 or b[1] < 0: return
            m.inputs2 = getattr(m, "inputs2", {}); m.inputs2["F_" + nm] = None
            m.loads.append(dict(kind="PtPForce", a=a, b=b, ref=None, value=lambda F, i: i["F_" + nm], what="addHydCylSensorsLoads",
                                enter=lambda L: L.w.addHydCylSensorsLoads(nm, L.at(a), L.at(b))))
        else:
            if a[1] < 0 or b[1] < 0: return
            m.inputs2 = getattr(m, "inputs2", {}); m.inputs2["F_" + nm] = (3,); m.inputs2["M_" + nm] = (3,)
            W = (-1, -1)
            on, ref = (a, W) if kind == "Contact" else (b, a)
            enter = (lambda L: L.w.addContactSensorsLoads(nm, L.at(a))) if kind == "Contact" else (lambda L: L.w.addTyreSensorsLoads(nm, L.at(a), L.at(b)))
            m.loads.append(dict(kind="CmpForce", a=on, b=W, ref=ref, value=lambda F, i: np.array(i["F_" + nm]), what="add" + kind, enter=enter))
            m.loads.append(dict(kind="CmpTorque", a=on, b=W, ref=ref, value=lambda F, i: np.array(i["M_" + nm]), what="add" + kind, enter=lambda L: None))

def add_loads(rng, m, n=3, **kw):
    lg = LG(rng, m)
    for _ in range(n): lg.add(**kw)

def random_inputs(rng, m):
    out = {"time": .37}
    for n, sh in list(m.inputs.items()) + list(getattr(m, "inputs2", {}).items()):
        out[n] = round(rng.uniform(-5, 5), 3) if sh is None else [round(rng.uniform(-5, 5), 3) for _ in range(3)]
    return out
def input_env(inp):
    return {k: (np.matrix(v).T if isinstance(v, list) else v) for k, v in inp.items()}
