"""Random mechanisms as plain data, their mechanics computed with numpy (the reference), and the same
mechanism entered through pymbs.input. Nothing of pymbs is used for the reference.

A number in the data is a tuple: ('lit', x) or ('par', name, factor, default) = factor*parameter.
A frame orientation is a list of (axis, angle) applied one after the other (columns = axes of the frame).
"""
import math, re, os, sys
import numpy as np

AX = {"x": np.array([1., 0, 0]), "y": np.array([0, 1., 0]), "z": np.array([0, 0, 1.])}

def num(v): return float(v[1]) if v[0] == "lit" else float(v[2]) * float(v[3])
def nums(vs): return np.array([num(v) for v in vs])
def sk(w): return np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])
def rot(e, a):
    K = sk(e); return np.eye(3) + math.sin(a) * K + (1 - math.cos(a)) * (K @ K)
def rotseq(seq):
    R = np.eye(3)
    for ax, a in seq: R = R @ rot(AX[ax], num(a))
    return R

# ------------------------------------------------------------------ kinematics
class Fr:
    """motion of a frame in inertial coordinates"""
    __slots__ = ("R", "r", "w", "v", "al", "a")
    def __init__(s, R, r, w, v, al, a): s.R, s.r, s.w, s.v, s.al, s.a = R, r, w, v, al, a
    def fixed(s, p, R):
        d = s.R @ p
        return Fr(s.R @ R, s.r + d, s.w, s.v + np.cross(s.w, d), s.al, s.a + np.cross(s.al, d) + np.cross(s.w, np.cross(s.w, d)))
    def inv_fixed(s, p, R):
        """the motion of the parent in which this frame sits at (p, R)"""
        return s.fixed(-R.T @ p, R.T)
    def dof(s, d, q, qd, qdd):
        e = s.R @ AX[d[1]]
        if d[0] == "R":
            return Fr(s.R @ rot(AX[d[1]], q), s.r, s.w + e * qd, s.v, s.al + e * qdd + np.cross(s.w, e * qd), s.a)
        x = e * q
        return Fr(s.R, s.r + x, s.w, s.v + np.cross(s.w, x) + e * qd, s.al,
                  s.a + np.cross(s.al, x) + np.cross(s.w, np.cross(s.w, x)) + 2 * np.cross(s.w, e * qd) + e * qdd)
def still():
    z = np.zeros(3); return Fr(np.eye(3), z, z, z, z, z)

class Model:
    """bodies: list of dict(name, mass, cg[3], I[3][3], frames=[(name, parent index or -1, p, seq)])
       joints: list of dict(name, par=(body, frame), child=(body, frame), dofs); body -1 is the world, frame -1 the body itself"""
    def __init__(m):
        m.params = {}; m.bodies = []; m.joints = []; m.wframes = []; m.gdir = [0., 0., -1.]; m.g = 9.81
        m.loads = []; m.sensors = []; m.inputs = {}; m.dummies = True
    # ---- geometry of frames on a body
    def frames(m, b): return m.wframes if b < 0 else m.bodies[b]["frames"]
    def frame_T(m, b, f):
        if f < 0: return np.zeros(3), np.eye(3)
        n, par, p, seq = m.frames(b)[f]
        P, R = m.frame_T(b, par)
        return P + R @ nums(p), R @ rotseq(seq)
    # ---- coordinates
    def coords(m): return [(j["name"], i) for j in m.joints for i in range(len(j["dofs"]))]
    def coord_names(m):
        out = []
        for j in m.joints:
            if len(j["dofs"]) == 1: out.append((j["name"], j["dofs"][0]))
            else: out += [(j["name"] + "_" + d, d) for d in j["dofs"]]
        return out
    def ndof(m): return sum(len(j["dofs"]) for j in m.joints)
    def offsets(m):
        o, k = {}, 0
        for j in m.joints: o[j["name"]] = k; k += len(j["dofs"])
        return o
    def order(m):
        """joints sorted from the world outwards"""
        done, out, left = {-1}, [], list(m.joints)
        while left:
            n = [j for j in left if j["par"][0] in done]
            if not n: raise ValueError("not a tree")
            for j in n: done.add(j["child"][0]); out.append(j); left.remove(j)
        return out
    def kin(m, q, qd, qdd):
        """motion of every body frame (and of the frames behind each elementary joint)"""
        F = {-1: still()}; off = m.offsets(); m_el = {}
        for j in m.order():
            b, f = j["par"]; x = F[b].fixed(*m.frame_T(b, f)); k = off[j["name"]]
            for i, d in enumerate(j["dofs"]):
                m_el[(j["name"], i)] = x                       # frame before the movement
                x = x.dof(d, q[k + i], qd[k + i], qdd[k + i])
            c, f = j["child"]; F[c] = x.inv_fixed(*m.frame_T(c, f))
        m.el = m_el
        return F
    def at(m, F, bf):
        b, f = bf; return F[b].fixed(*m.frame_T(b, f))
    # ---- dynamics
    def gvec(m): return np.array(m.gdir, float) * m.g
    def body_props(m, b):
        B = m.bodies[b]
        return num(B["mass"]), nums(B["cg"]), np.array([[num(x) for x in r] for r in B["I"]])
    def jac(m, q, fn):
        """columns of a velocity that is linear in qd"""
        n = m.ndof(); z = np.zeros(n); cols = []
        for k in range(n):
            e = np.zeros(n); e[k] = 1; cols.append(fn(m.kin(q, e, z)))
        return np.array(cols).T if n else np.zeros((3, 0))
    def terms(m, q, qd, extra=()):
        """M, right hand side of M qdd = rhs; extra: (body, point in body coordinates, force, torque) in inertial coordinates"""
        n = m.ndof(); z = np.zeros(n)
        Fb = m.kin(q, qd, z)
        Fk = []
        for k in range(n):
            e = np.zeros(n); e[k] = 1; Fk.append(m.kin(q, e, z))
        M = np.zeros((n, n)); h = np.zeros(n); g = m.gvec()
        for b in range(len(m.bodies)):
            mass, cg, I = m.body_props(b)
            c = Fb[b].fixed(cg, np.eye(3)); I = Fb[b].R @ I @ Fb[b].R.T
            Jv = np.array([f[b].fixed(cg, np.eye(3)).v for f in Fk]).T; Jw = np.array([f[b].w for f in Fk]).T
            M += mass * Jv.T @ Jv + Jw.T @ I @ Jw
            h += Jv.T @ (mass * (g - c.a)) - Jw.T @ (I @ c.al + np.cross(c.w, I @ c.w))
        for b, p, f, t in extra:
            if b < 0: continue
            Jv = np.array([x[b].fixed(p, np.eye(3)).v for x in Fk]).T; Jw = np.array([x[b].w for x in Fk]).T
            h += Jv.T @ f + Jw.T @ t
        return M, h
    def coord_index(m, jname, i): return m.offsets()[jname] + i
    def load_forces(m, F, inp):
        """-> list of (body, point, force, torque), list of (coordinate, load)"""
        ext, gen = [], []
        for l in m.loads:
            if l["kind"] == "Joint":
                gen.append((m.coord_index(*l["joint"]), l["value"](F, inp))); continue
            a, b = m.at(F, l["a"]), m.at(F, l["b"])
            pa, pb = m.frame_T(*l["a"])[0], m.frame_T(*l["b"])[0]
            v = l["value"](F, inp); z = np.zeros(3)
            if l["kind"] == "PtPForce":
                d = a.r - b.r; f = v * d / np.linalg.norm(d); t = z
            else:
                ref = a if l["ref"] is None else m.at(F, l["ref"])
                f, t = (ref.R @ v, z) if l["kind"] == "CmpForce" else (z, ref.R @ v)
            ext += [(l["a"][0], pa, f, t), (l["b"][0], pb, -f, -t)]
        return ext, gen
    def acc(m, q, qd, inp=None):
        F = m.kin(q, qd, np.zeros(m.ndof()))
        ext, gen = m.load_forces(F, inp or {})
        M, h = m.terms(q, qd, ext)
        for k, v in gen: h[k] += v
        return np.linalg.solve(M, h), M, h, (ext, gen)

# ------------------------------------------------------------------ through pymbs
class Lib:
    """enters a model through pymbs.input"""
    def __init__(L, m, early=(), order=None, only_numbers=False, joint_order=None, **kw):
        from pymbs.input import MbsSystem
        from pymbs import symbolics
        from pymbs.common import functions
        L.m, L.S, L.fn, L.only_numbers = m, symbolics, functions, only_numbers
        L.w = MbsSystem(list(m.gdir), **kw)
        L.par = {}
        if not only_numbers:
            for n, d in m.params.items(): L.par[n] = L.w.addParam(n, d)
        L.body = {}; L.fr = {}
        for i, (n, par, p, seq) in enumerate(m.wframes): L.add_frame(-1, i)
        for b in (order or range(len(m.bodies))): L.add_body(b)
        L.joint = {}
        for j in joint_order or m.joints: L.add_joint(j)
        L.inp = {}
        for n, sh in m.inputs.items(): L.inp[n] = L.w.addInput(n, sh) if sh else L.w.addInput(n)
    def v(L, x):
        if x[0] == "lit": return x[1]
        if L.only_numbers: return num(x)
        s = L.par[x[1]]
        return s if x[2] == 1 else x[2] * s
    def R(L, seq, form=0):
        S = L.S
        if not seq: return S.eye((3, 3))
        if form == 1 and all(a[0] == "lit" for _, a in seq): return rotseq(seq).tolist()
        R = None
        for ax, a in seq:
            T = S.transpose(L.fn.rot_mat(L.v(a), ax)); R = T if R is None else R * T
        if not isinstance(R, S.Matrix): R.simplify()
        return R
    def obj(L, b): return L.w if b < 0 else L.body[b]
    def add_frame(L, b, i):
        n, par, p, seq = L.m.frames(b)[i]
        o = L.obj(b) if par < 0 else L.fr[(b, par)]
        args = {}
        if not (all(x == ("lit", 0.0) for x in p)): args["p"] = [L.v(x) for x in p]
        if seq: args["R"] = L.R(seq, i % 2)
        L.fr[(b, i)] = o.addFrame(n, **args)
    def add_body(L, b):
        B = L.m.bodies[b]
        I = [[L.v(x) for x in r] for r in B["I"]]
        if B.get("six"): I = [I[0][0], I[0][1], I[1][1], I[0][2], I[1][2], I[2][2]]
        kw = {}
        if any(x != ("lit", 0.0) for x in B["cg"]) or b % 2: kw["cg"] = [L.v(x) for x in B["cg"]]
        if any(x != ("lit", 0.0) for r in B["I"] for x in r) or b % 2: kw["inertia"] = I
        L.body[b] = L.w.addBody(L.v(B["mass"]), name=B["name"], **kw)
        for i in range(len(B["frames"])): L.add_frame(b, i)
    def at(L, bf): return L.obj(bf[0]) if bf[1] < 0 else L.fr[bf]
    def add_joint(L, j):
        kw = {}
        if j.get("q0") is not None: kw["startVals"] = list(j["q0"])
        if j.get("qd0") is not None: kw["startVals_d"] = list(j["qd0"])
        d = list(j["dofs"])
        if len(d) == 1 and j.get("str"): d = d[0]
        r = L.w.addJoint(L.at(j["par"]), L.at(j["child"]), d if d else None, name=j["name"], **kw)
        r = r if isinstance(r, list) else [r]
        for i, x in enumerate(r): L.joint[(j["name"], i)] = x

class quiet:
    """standard output and error of the library (both languages) to /dev/null, errors kept"""
    def __enter__(s):
        sys.stdout.flush(); sys.stderr.flush()
        s.o, s.e = os.dup(1), os.dup(2); n = os.open(os.devnull, os.O_WRONLY); os.dup2(n, 1); os.dup2(n, 2); os.close(n)
    def __exit__(s, *a):
        sys.stdout.flush(); sys.stderr.flush()
        os.dup2(s.o, 1); os.dup2(s.e, 2); os.close(s.o); os.close(s.e)

# ------------------------------------------------------------------ running the equations
def _solve(A, b): return np.linalg.solve(np.asarray(A, float), np.asarray(b, float))
NS = dict(sin=np.sin, cos=np.cos, tan=np.tan, asin=np.arcsin, acos=np.arccos, atan=np.arctan, atan2=np.arctan2, sqrt=np.sqrt, abs=abs,
          sign=np.sign, matrix=np.matrix, linalg=np.linalg, zeros=np.zeros, float=float, vstack=np.vstack, asarray=np.asarray, pi=math.pi)
IDENT = re.compile(r"der\((\w+)\)")

class Equations:
    """the assignments of a built graph, compiled"""
    def __init__(E, g, kinds):
        E.list = []; E.done = set()
        for x in [y for k in (kinds if isinstance(kinds, (list, tuple)) else [kinds]) for y in g.getAssignments(k)]:
            l, r = x.lhs, x.rhs
            if isinstance(l, list): pairs = list(zip(l, r))
            else: pairs = [(l, r)]
            for a, b in pairs:
                if str(a) in E.done: continue            # computed for the kinds before
                E.done.add(str(a))
                sa, sb = IDENT.sub(r"der_\1", str(a)), IDENT.sub(r"der_\1", str(b))
                if sa.startswith("matrix("): names = re.findall(r"\w+", sa[7:].split("], dtype")[0].replace("dtype=float", "")); E.list.append((names, compile(sb, sb[:200], "eval"), sb))
                else: E.list.append((sa, compile(sb, sb[:200], "eval"), sb))
    def run(E, env):
        env = dict(NS, **env)
        for l, c, s in E.list:
            v = eval(c, env)
            if isinstance(l, list):
                for n, x in zip(l, np.asarray(v, float).ravel()): env[n] = float(x)
            else: env[l] = v
        return env
