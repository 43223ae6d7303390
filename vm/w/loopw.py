"""Worker for closed loops (M05): trees with loops entered through pymbs.input; the geometry and the motion of every loop are solved
here from the description, the accelerations of the independent coordinates come from the constrained Newton-Euler equations."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mechw import *

PL = {"x": (1, 2), "y": (2, 0), "z": (0, 1)}               # right-handed plane of every axis
def inpl(ax, v): a, b = PL[ax]; return np.array([v[a], v[b]])
def ang(ax, v): w = inpl(ax, v); return math.atan2(w[1], w[0])
K = {"x": 0, "y": 1, "z": 2}
class Degenerate(Exception): pass

class LB:
    """builds a model with loops. m.closed: dict(kind, dep, ind, solve(q), planar=(base, axis, c3, c4) | spatial=(c3, c4) | ratio=(i, j, r), enter)"""
    def __init__(s, rng, params=True):
        s.rng = rng; s.g = MG(rng, params=params); s.m = s.g.m = Model(); s.m.closed = []; s.k = 0; s.shifted = set()
        r = rng; s.m.gdir = r.choice([[0, 0, -1], [0, -1, 0], [-1, 0, 0], [half(r, -1, 1, 2) for _ in range(3)]])
        s.out = {}                                          # out-of-plane place of a frame
    # ---- pieces
    def body(s, frames=None):
        mass, cg, I = s.g.mass_props(); n = s.g.name("body")
        s.m.bodies.append(dict(name=n, mass=mass, cg=cg, I=I, frames=frames or [], six=s.rng.random() < .3)); return len(s.m.bodies) - 1
    def frame(s, b, p, seq=None, pre="fr"):
        l = s.m.frames(b); l.append((s.g.name(pre), -1, p, seq or [])); return (b, len(l) - 1)
    def point(s, ax, lo, hi, out=0.0, along=None):
        """a point of the plane, its distance from the origin between lo and hi, as numbers or parameters"""
        r = s.rng; a, b = PL[ax]; p = [("lit", 0.0)] * 3
        l = r.uniform(lo, hi)
        if along is not None: p[along] = s.val(l * r.choice([1, -1]))
        else:
            k = r.random()
            if k < .35: p[r.choice([a, b])] = s.val(l * r.choice([1, 1, -1]))
            else:
                t = r.uniform(-math.pi, math.pi); p[a] = s.val(l * math.cos(t)); p[b] = s.val(l * math.sin(t))
        p[K[ax]] = ("lit", out)
        return p
    def val(s, x):
        x = round(x, 4) or .25
        if not s.g.use_params or s.rng.random() < .5: return ("lit", x)
        n = s.g.name(s.rng.choice(["len", "l_"])); f = s.rng.choice([1, 1, 2, -1]); s.m.params[n] = x / f; return ("par", n, f, x / f)
    def joint(s, par, child, dofs, name=None):
        j = dict(name=name or s.g.name("j"), par=par, child=child, dofs=dofs, str=s.rng.random() < .5)
        if s.rng.random() < .3: j["q0"] = [half(s.rng, -1, 1) for _ in dofs]
        s.m.joints.append(j); return (j["name"], 0)
    def link(s, par, ax, dof=None, at=None):
        """a body behind a joint of its own; its joint sits at a displaced frame now and then (origin of the joint, returned in 'zero')"""
        b = s.body(); f = (b, -1); zero = [("lit", 0.0)] * 3
        if s.rng.random() < .25:
            zero = [("lit", half(s.rng, -.5, .5)) for _ in range(3)]; f = s.frame(b, zero)
            s.shifted.add(b)
        c = s.joint(par, f, [dof or "R" + ax]); return b, c, nums(zero)
    def on(s, b, zero, p, seq=None):
        """frame at p from the link's joint"""
        q = [x if z == 0 else ("lit", num(x) + z) for x, z in zip(p, zero)]
        return s.frame(b, q, seq)
    def base(s):
        """world, or a body moving in some way"""
        if s.rng.random() < .55: return -1
        b = s.body(); pf = -1
        if s.rng.random() < .5: pf = s.frame(-1, s.g.vec(.5), s.g.seq())[1]
        s.joint((-1, pf), (b, -1), s.g.dofs(s.rng.choice([1, 1, 2, 3]))); return b
    def closing(s): return [(s.rng.choice("xyz"), ("lit", half(s.rng, -2, 2)))] if s.rng.random() < .3 else None
    def swap(s, b, x, y):
        """both orders of the frames, where the mechanism stands on the world (otherwise the first must be the long side)"""
        return (y, x) if b < 0 and s.rng.random() < .5 else (x, y)
    def add(s, **kw): s.k += 1; kw["name"] = s.rng.choice(["loop%d", "L%d", "closed_%d"]) % s.k; s.m.closed.append(kw); return kw
    # ---- loops
    def fourbar(s, b, flat=True):
        r, m = s.rng, s.m; ax = r.choice("xyz"); post = r.choice([1, -1])
        o = [0.0] * 4 if r.random() < .5 else [half(r, -.5, .5) for _ in range(4)]
        fA, fD = s.frame(b, s.point(ax, .05, .5, o[0])), s.frame(b, s.point(ax, .6, 1.2, o[1]))
        l2, jA, z2 = s.link(fA, ax); pB = s.point(ax, .3, .8, o[2]); fB = s.on(l2, z2, pB)
        l3, jB, z3 = s.link(fB, ax); pC = s.point(ax, .8, 1.5, o[3]); c3 = s.on(l3, z3, pC, s.closing())
        l4, jD, z4 = s.link(fD, ax); pE = s.point(ax, .8, 1.5, half(r, -.3, .3) if any(o) else 0); c4 = s.on(l4, z4, pE, s.closing())
        A, D, B, C, E = (nums(x) for x in (m.frames(b)[fA[1]][2], m.frames(b)[fD[1]][2], pB, pC, pE))
        a2 = lambda v: inpl(ax, v)
        def solve(q, ix):
            th = q[ix(jA)]; R = rot(AX[ax], th)
            PB = a2(A + R @ B); PD = a2(D); r3, r4 = np.linalg.norm(a2(C)), np.linalg.norm(a2(E)); d = PD - PB; L = np.linalg.norm(d)
            x = (r3 ** 2 - r4 ** 2 + L ** 2) / (2 * L); y2 = r3 ** 2 - x ** 2
            if y2 < .01 or L < .05: raise Degenerate
            e = d / L; nrm = np.array([-e[1], e[0]]); PC = PB + x * e + post * math.sqrt(y2) * nrm
            w = PC - PB; v = PC - PD
            q[ix(jB)] = math.atan2(w[1], w[0]) - ang(ax, C) - th; q[ix(jD)] = math.atan2(v[1], v[0]) - ang(ax, E)
        x, y = s.swap(b, c3, c4)
        return s.add(kind="FourBar", dep=[jB, jD], ind=[jA], solve=solve, planar=(b, ax, c3, c4), post=post, links=[l2, l3, l4],
                     enter=lambda L, n: L.w.addLoop.FourBar(L.at(x), L.at(y), post, n) if post < 0 or r.random() < .5 else L.w.addLoop.FourBar(L.at(x), L.at(y), name=n))
    def threebar(s, b):
        r, m = s.rng, s.m; ax = r.choice("xyz"); o = [0.0, 0.0] if r.random() < .6 else [half(r, -.5, .5), half(r, -.5, .5)]
        fA, fC = s.frame(b, s.point(ax, .05, .4, o[0])), s.frame(b, s.point(ax, .5, 1.2, o[0] + o[1]))
        l2, jA, z2 = s.link(fA, ax); pB = s.point(ax, .2, .8, o[1]); c2 = s.on(l2, z2, pB, s.closing())
        l3, jC, z3 = s.link(fC, ax); fT = (l3, -1) if not z3.any() else s.on(l3, z3, [("lit", 0.0)] * 3)
        t = r.choice([x for x in "xyz" if x != ax])
        l4, jCB, z4 = s.link(fT, ax, "T" + t); c3 = (l4, -1) if not z4.any() else s.on(l4, z4, [("lit", 0.0)] * 3)
        A, C, B = (nums(x) for x in (m.frames(b)[fA[1]][2], m.frames(b)[fC[1]][2], pB))
        def solve(q, ix):
            d = A + rot(AX[ax], q[ix(jA)]) @ B - C; l = np.linalg.norm(inpl(ax, d))
            if l < .05: raise Degenerate
            q[ix(jC)] = ang(ax, d) - ang(ax, AX[t]); q[ix(jCB)] = l
        x, y = s.swap(b, c2, c3)
        if b >= 0: x, y = c2, c3
        return s.add(kind="ThreeBarTrans", dep=[jCB, jC], ind=[jA], solve=solve, planar=(b, ax, c2, c3), links=[l2, l3, l4], enter=lambda L, n: L.w.addLoop.ThreeBarTrans(L.at(x), L.at(y), n))
    def fourbartrans(s, b):
        r, m = s.rng, s.m; ax = r.choice("xyz"); o = [0.0] * 3 if r.random() < .6 else [half(r, -.5, .5) for _ in range(3)]
        fA, fD = s.frame(b, s.point(ax, .05, .4, o[0])), s.frame(b, s.point(ax, .5, 1.2, sum(o)))
        l2, jA, z2 = s.link(fA, ax); pB = s.point(ax, .3, .8, o[1]); fB = s.on(l2, z2, pB)
        l3, jB, z3 = s.link(fB, ax); pC = s.point(ax, .3, .9, o[2]); c3 = s.on(l3, z3, pC, s.closing())
        l4, jD, z4 = s.link(fD, ax); fT = (l4, -1) if not z4.any() else s.on(l4, z4, [("lit", 0.0)] * 3)
        t = r.choice([x for x in "xyz" if x != ax])
        l5, jDC, z5 = s.link(fT, ax, "T" + t); c4 = (l5, -1) if not z5.any() else s.on(l5, z5, [("lit", 0.0)] * 3)
        A, D, B, C = (nums(x) for x in (m.frames(b)[fA[1]][2], m.frames(b)[fD[1]][2], pB, pC))
        def solve(q, ix):
            R = rot(AX[ax], q[ix(jA)]); d = A + R @ (B + rot(AX[ax], q[ix(jB)]) @ C) - D; l = np.linalg.norm(inpl(ax, d))
            if l < .05: raise Degenerate
            q[ix(jD)] = ang(ax, d) - ang(ax, AX[t]); q[ix(jDC)] = l
        x, y = (c3, c4) if r.random() < .5 else (c4, c3)
        return s.add(kind="FourBarTrans", dep=[jDC, jD], ind=[jA, jB], solve=solve, planar=(b, ax, c3, c4), links=[l2, l3, l4, l5], enter=lambda L, n: L.w.addLoop.FourBarTrans(L.at(x), L.at(y), name=n))
    def crank(s, b):
        r, m = s.rng, s.m; ax = r.choice("xyz"); t = r.choice([x for x in "xyz" if x != ax])
        free = r.random() < .6                              # bars in any direction, the slide beside the crank
        o = 0.0 if r.random() < .6 else half(r, -.5, .5)
        l1, j1, z1 = s.link((b, -1), ax); pB = s.point(ax, .2, .5, o, along=None if free else K[t]); c1 = s.on(l1, z1, pB, s.closing())
        z = [("lit", 0.0)] * 3; pS = pT = z
        if free and r.random() < .5: pS = s.point(ax, .05, .2)
        if free and r.random() < .5: pT = s.point(ax, .05, .2)
        l3, j3, z3 = s.link((b, -1) if pS is z else s.frame(b, pS), ax, "T" + t); fR = (l3, -1) if not z3.any() and pT is z else s.on(l3, z3, pT)
        l2, j2, z2 = s.link(fR, ax); pR = s.point(ax, .7, 1.4, o, along=None if free else K[t]); c2 = s.on(l2, z2, pR, s.closing())
        B, Rr, D, e = nums(pB), nums(pR), nums(pS) + nums(pT), AX[t]
        def solve(q, ix):
            T = rot(AX[ax], q[ix(j1)]) @ B - D; a, c = np.linalg.norm(inpl(ax, Rr)), T @ e
            side = T - c * e; h2 = a * a - inpl(ax, side) @ inpl(ax, side)
            if h2 < .01: raise Degenerate
            x = c - math.sqrt(h2); w = T - x * e                # the rod makes less than a right angle with the slide
            q[ix(j2)] = ang(ax, w) - ang(ax, Rr); q[ix(j3)] = x
        x, y = s.swap(b, c1, c2)
        return s.add(kind="CrankSlider", dep=[j3, j2], ind=[j1], solve=solve, planar=(b, ax, c1, c2), links=[l1, l2, l3], enter=lambda L, n: L.w.addLoop.CrankSlider(L.at(x), L.at(y), n))
    def steering(s, b):
        """a rack along y, a tie rod and a hub which turn about z. Drawn for a hub whose bar points along x and a tie rod along y"""
        r, m = s.rng, s.m; sH, sS = r.choice([1, -1]), r.choice([1, -1])
        R3, H, L1 = r.uniform(.2, .5), sH * r.uniform(.05, .4), r.uniform(.1, .5); R2 = r.uniform(.5, 1.); q4 = r.uniform(-1.2, 1.2)
        k0 = math.sqrt(max(.01, R2 * R2 - (H + R3 * math.sin(q4)) ** 2)) - R3 * math.cos(q4); L0 = k0 + L1
        if L0 < .05: L0 = .6
        pA = [s.val(half(r, -.5, .5)) for _ in range(3)] if r.random() < .5 else [("lit", 0.0)] * 3
        fA, fD = s.frame(b, pA), s.frame(b, [("lit", num(pA[0]) + H), ("lit", num(pA[1]) + sS * L0), pA[2]], s.closing())
        l1, j1, z1 = s.link(fA, "z", "Ty"); lit = [("lit", 0.0)] * 3
        pB = list(lit); pB[1] = s.val(sS * L1); l2, j2, z2 = s.link(s.on(l1, z1, pB), "z")
        pC = list(lit); pC[1] = s.val(sS * R2); l3, j3, z3 = s.link(s.on(l2, z2, pC), "z")
        pD = list(lit); pD[0] = s.val(R3); c2 = s.on(l3, z3, pD, s.closing())
        L1, R2, R3 = abs(nums(pB)[1]), abs(nums(pC)[1]), nums(pD)[0]
        if R3 < 0: return s.steering(b)
        def solve(q, ix):
            k0 = L0 - L1 - sS * q[ix(j1)]; k1 = (R2 * R2 - H * H - R3 * R3 - k0 * k0) / (2 * R3); rho = math.hypot(H, k0)
            if rho < .03 or abs(k1) > .95 * rho or abs(k0 + k1) < .02: raise Degenerate
            q4 = math.atan2(H, k0) - sH * math.acos(k1 / rho); c = (k0 + R3 * math.cos(q4)) / R2
            if c < .2: raise Degenerate
            v0 = -sS * math.asin((H + R3 * math.sin(q4)) / R2)
            q[ix(j2)] = v0; q[ix(j3)] = -sS * math.pi / 2 - sS * q4 - v0
        a = dict(setUpH=sH, setUpS=sS)
        if r.random() < .5: a = {k: v for k, v in a.items() if v != 1}      # the defaults
        return s.add(kind="Steering", post=(sH, sS), dep=[j2, j3], ind=[j1], solve=solve, planar=(b, "z", fD, c2), links=[l1, l2, l3], enter=lambda L, n: L.w.addLoop.Steering(L.at(fD), L.at(c2), name=n, **a))
    def transmission(s, c1, c2):
        ratio = s.rng.choice([1.0, -1.0, 2, -3, .5, half(s.rng, -2, 2), 0])
        if s.rng.random() < .15: ratio = 1.0
        def solve(q, ix): q[ix(c2)] = ratio * q[ix(c1)]
        return s.add(kind="Transmission", dep=[c2], ind=[c1], solve=solve, ratio=(c1, c2, ratio), links=[],
                     enter=lambda L, n: L.w.addLoop.Transmission(L.joint[c1], L.joint[c2], ratio, n) if ratio != 1.0 else L.w.addLoop.Transmission(L.joint[c1], L.joint[c2], name=n))
    def hexapod(s, legs):
        r, m = s.rng, s.m
        m.gdir = r.choice([[-1, 0, 0], [0, 0, -1], m.gdir])
        tp = s.body(); s.joint((-1, -1), (tp, -1), ["Tx", "Ty", "Tz", "Rx", "Ry", "Rz"]); ind = [(m.joints[-1]["name"], i) for i in range(6)]
        m.joints[-1].pop("q0", None); pl = m.joints[-1]["name"]
        for _ in range(legs):
            pA = [s.val(half(r, -.2, .2)), s.val(half(r, -1, 1)), s.val(half(r, -1, 1))]; pC = [s.val(half(r, -.4, .4)) for _ in range(3)]
            fA, fC = s.frame(-1, pA), s.frame(tp, pC)
            h = s.body(); n = s.g.name("j"); m.joints.append(dict(name=n, par=fA, child=(h, -1), dofs=["Ry", "Rz"])); jA2, jA1 = (n, 0), (n, 1)
            p = s.body(); jB = s.joint((h, -1), (p, -1), ["Tx"])
            A, C = nums(pA), nums(pC)
            def solve(q, ix, A=A, C=C, jA2=jA2, jA1=jA1, jB=jB):
                i = ix((pl, 0)); R = rot(AX["x"], q[i + 3]) @ rot(AX["y"], q[i + 4]) @ rot(AX["z"], q[i + 5])
                l = q[i:i + 3] + R @ C - A; L = np.linalg.norm(l)
                if L < .3 or math.hypot(l[0], l[2]) < .3 * L: raise Degenerate
                q[ix(jB)] = L; q[ix(jA2)] = math.atan2(-l[2], l[0]); q[ix(jA1)] = math.asin(l[1] / L)
            x, y = (fC, (p, -1)) if r.random() < .7 else (fC, (p, -1))
            s.add(kind="Hexapod", dep=[jB, jA2, jA1], ind=ind, solve=solve, spatial=(fC, (p, -1)), links=[h, p], enter=lambda L, n, x=x, y=y: L.w.addLoop.Hexapod(L.at(x), L.at(y), n))

def residuals(m, F, what):
    """gap of every loop and its velocity or acceleration, in base coordinates"""
    out = []
    for c in m.closed:
        if "planar" in c:
            b, ax, c3, c4 = c["planar"]; B, P, Q = F[b], m.at(F, c3), m.at(F, c4); d = Q.r - P.r
            if what == "p": x = B.R.T @ d
            elif what == "v": x = B.R.T @ (Q.v - P.v - np.cross(B.w, d))
            else:
                vr = Q.v - P.v - np.cross(B.w, d)
                x = B.R.T @ (Q.a - P.a - np.cross(B.al, d) - np.cross(B.w, np.cross(B.w, d)) - 2 * np.cross(B.w, vr))
            out += list(inpl(ax, x))
        elif "spatial" in c:
            P, Q = m.at(F, c["spatial"][0]), m.at(F, c["spatial"][1]); a = {"p": "r", "v": "v", "a": "a"}[what]
            out += list(getattr(Q, a) - getattr(P, a))
    return out

class Closed:
    """the constrained motion"""
    def __init__(s, m):
        s.m = m; s.ix = lambda c: m.coord_index(*c)
        s.dep = [s.ix(d) for c in m.closed for d in c["dep"]]; s.ind = [i for i in range(m.ndof()) if i not in s.dep]
    def order(s):
        """loops in an order in which the coordinates they need are known"""
        known = set(s.ind); left = list(s.m.closed); out = []
        while left:
            n = [c for c in left if all(s.ix(x) in known for x in c["ind"])]
            if not n: raise ValueError("cyclic loops")
            for c in n: left.remove(c); out.append(c); known |= {s.ix(x) for x in c["dep"]}
        return out
    def solve(s, qu, qdu):
        m, n = s.m, s.m.ndof(); q = np.zeros(n); q[s.ind] = qu
        for c in s.order(): c["solve"](q, s.ix)
        gap = residuals(m, m.kin(q, np.zeros(n), np.zeros(n)), "p")
        if gap and np.max(np.abs(gap)) > 1e-9: raise Fail("harness", "loop not closed by the reference", str([(c["kind"]) for c in m.closed]) + str(gap))
        J = s.jac(q); Jv, Ju = J[:, s.dep], J[:, s.ind]
        if np.linalg.cond(Jv) > 60: raise Degenerate
        qd = np.zeros(n); qd[s.ind] = qdu; qd[s.dep] = -np.linalg.solve(Jv, Ju @ qdu)
        if np.max(np.abs(qd)) > 60: raise Degenerate
        return q, qd, J
    def rows(s, q, qd, qdd, what):
        m = s.m; out = residuals(m, m.kin(q, qd, qdd), what)
        for c in m.closed:
            if "ratio" in c:
                a, b, r = c["ratio"]; x = qd if what == "v" else qdd; out.append(x[s.ix(b)] - r * x[s.ix(a)])
        return np.array(out)
    def jac(s, q):
        n = s.m.ndof(); z = np.zeros(n)
        return np.array([s.rows(q, np.eye(n)[k], z, "v") for k in range(n)]).T
    def acc(s, q, qd, J, inp):
        m, n = s.m, s.m.ndof(); z = np.zeros(n)
        ext, gen = m.load_forces(m.kin(q, qd, z), inp)
        M, h = m.terms(q, qd, ext)
        for k, v in gen: h[k] += v
        gam = s.rows(q, qd, z, "a"); k = len(gam)
        Jv, Ju = J[:, s.dep], J[:, s.ind]
        T = np.zeros((n, len(s.ind))); T[s.ind] = np.eye(len(s.ind)); T[s.dep] = -np.linalg.solve(Jv, Ju)
        b = np.zeros(n); b[s.dep] = -np.linalg.solve(Jv, gam)
        Ms = T.T @ M @ T; cond = np.linalg.cond(Ms)
        u = np.linalg.solve(Ms, T.T @ (h - M @ b))
        return T @ u + b, cond * max(1, np.max(np.abs(T))), h

KINDS = ["fourbar", "threebar", "fourbartrans", "crank", "steering"]
def make(rng, tier):
    s = LB(rng); m = s.m; r = rng; k = r.random()
    if k < .06: s.hexapod(r.choice([1, 1, 2]))
    else:
        b = s.base(); s_ = []
        for _ in range(r.choice([1, 1, 1, 2])):
            k = r.choice(KINDS)
            if k == "crank" and b in s.shifted: k = "fourbar"      # a crank turns about the origin of its base
            l = getattr(s, k)(b); s_.append(l)
            if r.random() < .3:                                # something on a link
                p = r.choice(l["links"]); f = s.frame(p, s.g.vec(.5), s.g.seq()); c = s.body()
                s.joint(f, (c, -1), [r.choice(DOFS)])
            b = r.choice([b, r.choice(l["links"])])            # a second one on the same base or on a link
        if r.random() < .1: s.m.closed = []; s.m.notree = True
    if r.random() < .4:
        C = Closed(m); free = [c for c in m.coords() if C.ix(c) in C.ind and all(c not in l["ind"] for l in m.closed)]
        if not free:
            x = s.body(); s.joint((-1, -1), (x, -1), [r.choice(DOFS)]); free = [(m.joints[-1]["name"], 0)]
        # the angles a mechanism determines are known up to full turns only: no transmission starts there
        turn = [c for l in m.closed for c in l["dep"] if joint_dof(m, c)[0] == "R"]
        c2 = r.choice(free); c1 = [c for c in m.coords() if c != c2 and c not in turn]
        if c1: s.transmission(r.choice(c1), c2)
    if not m.closed:
        return make(rng, tier)
    return m

LSENS = ["Position", "Velocity", "Acceleration", "AngularVelocity", "AngularAcceleration", "Orientation", "Distance", "Joint", "Energy", "EnergyAll", "CenterofMass"]
def loops(out, rng, idx, tier):
    for _ in range(60):
        m = make(rng, tier)
        C = Closed(m)
        try: C.order()
        except ValueError: continue
        if len(C.ind) > 8: continue
        good = []
        for t in range(60):
            qu = np.array([rng.uniform(-1.6, 1.6) for _ in C.ind]); qdu = np.array([rng.uniform(-1.5, 1.5) for _ in C.ind])
            if t % 3 == 2: qu = np.array([rng.choice([0., 0., .5, -1., math.pi / 2, -math.pi / 2]) for _ in C.ind])
            try:
                q, qd, J = C.solve(qu, qdu); a, cond, h = C.acc(q, qd, J, random_inputs(rng, m))
                if cond < 1e5 and np.max(np.abs(a)) < 1e4: good.append((q, qd, J, t % 3 == 2))
            except (Degenerate, np.linalg.LinAlgError): pass
            if len(good) >= 4: break
        if len(good) >= 2: break
    else: out.inc("skipped"); return
    if rng.random() < .4: add_loads(rng, m, rng.choice([1, 2]), kinds=("PtPForce", "CmpForce", "CmpTorque", "Joint", "Spring"))
    sg = SG(rng, m)
    for _ in range(rng.choice([0, 2, 4])): sg.add(LSENS)
    small = len(m.bodies) <= 4 and len(C.ind) <= 2 and not any(c["kind"] == "Hexapod" for c in m.closed)
    gens = ["Recursive", "OrderN"]
    if small and rng.random() < .3: gens = ["Explicit", rng.choice(gens)]
    late = rng.random() < .5
    for gen in gens:
        o = opts_for(rng, gen)
        if gen == "OrderN" and any(c["kind"] != "FourBar" for c in m.closed):
            # this generator knows the loads in the cut of four bar linkages only and says so
            try: generate(m, gen, o, before=lambda L: [c["enter"](L, c["name"]) for c in m.closed])
            except Fail as e:
                if "NotImplementedError" in e.sig: out.inc("refused_by_order_n"); continue
                raise
            raise Fail("accepted", "OrderN accepts loops without loads in the cut", describe_l(m))
        def before(L):
            if late: [c["enter"](L, c["name"]) for c in m.closed]
            for l in m.loads + sg.list: l["enter"](L)
            if not late: [c["enter"](L, c["name"]) for c in m.closed]
        L = generate(m, gen, o, before=before)
        names = {}
        for i, c in enumerate(m.coords()): names[L.joint[c].name] = i
        got = [names.get(str(x)[2:], str(x)) for x in L.w.state.q]
        if sorted(map(str, got)) != sorted(map(str, C.ind)): raise Fail("state", "states of a closed loop", "%s instead of the coordinates %s; %s" % ([str(x) for x in L.w.state.q], C.ind, describe_l(m)))
        E = Equations(L.w.graph, [VarKind.Der_State, VarKind.Sensor])
        for q, qd, J, special in good:
            inp = random_inputs(rng, m)
            if not far_apart(m, m.kin(q, qd, np.zeros(m.ndof()))): continue
            qdd, cond, h = C.acc(q, qd, J, inp)
            if gen == "OrderN":                                # it cuts the loop, so the open chain has to have inertia
                tree = np.linalg.cond(m.terms(q, qd, m.load_forces(m.kin(q, qd, np.zeros(m.ndof())), inp)[0])[0])
                if not tree < 1e6: out.inc("open_chain_without_inertia"); continue
                cond *= tree
            class V: pass
            v = V(); v.ndof = lambda: len(got); v.__dict__.update(m.__dict__)
            v.g, v.params = m.g, m.params
            env = run_eq(E, state_env(m, q[got], qd[got], input_env(inp)), gen, v)
            info = "q %s qd %s inputs %s opts %s special %s model %s" % (q.tolist(), qd.tolist(), inp, o, special, describe_l(m))
            tol = 1e-9 * max(30, cond) * (1 + np.max(np.abs(h)))
            what = gen + " " + "+".join(sorted(c["kind"] for c in m.closed)) + (" special" if special else "")
            for c in m.closed:                                 # the dependent coordinates themselves, where they appear
                for d in c["dep"]:
                    i = C.ix(d); nm = L.joint[d].name
                    if "q_" + nm in env:
                        x = env["q_" + nm] - q[i]
                        if joint_dof(m, d)[0] == "R" and "ratio" not in c: x = math.remainder(x, 2 * math.pi)
                        cmp(what + " coordinate", x, 0, 1e-6, info=nm + " " + info); out.inc("dependent_coordinates")
            cmp(what + " der(q)", env["der_q"], qd[got], info=info)
            cmp(what + " der(qd)", env["der_qd"], qdd[got], tol, info=info)
            out.inc("comparisons", 2 * len(got)); out.inc("states")
            if special: out.inc("special_states")
            X = State(m, q, qd, qdd, inp)
            for s in sg.list:
                for n_, v in zip(s["names"], s["value"](X)):
                    if v is None: continue
                    if n_ not in env: raise Fail("missing", "%s %s" % (gen, s["kind"]), "no equation for sensor %s; %s" % (n_, info))
                    g_ = np.asarray(env[n_], float).ravel(); v = np.asarray(v, float).ravel()
                    if s["kind"] == "Joint": v[0] += 2 * math.pi * round((g_[0] - v[0]) / (2 * math.pi))
                    cmp("%s %s" % (what, s["kind"]), env[n_], v, tol, info=n_ + " " + info)
                    out.inc("comparisons"); out.group("sensors", s["kind"])
        out.group("generators", gen)
    for c in m.closed:
        out.group("loops", c["kind"])
        if "post" in c: out.group("postures", str(c["post"]))
        if "planar" in c:
            out.group("axes", c["planar"][1])
            if c["planar"][0] >= 0: out.inc("moving_bases")
    out.group("independent", str(len(C.ind))); out.inc("distinct", 1 if C.dep else 0)
    out.sample({"loops": [c["kind"] for c in m.closed], "dofs": [j["dofs"] for j in m.joints], "idx": idx})

def joint_dof(m, c): return [j for j in m.joints if j["name"] == c[0]][0]["dofs"][c[1]]
def describe_l(m):
    d = describe(m); d["loops"] = [{k: v for k, v in c.items() if k not in ("solve", "enter")} for c in m.closed]
    return json.dumps(d, default=str)

MODES = {"loops": loops}
if __name__ == "__main__":
    worker.run(sys.argv[1], MODES[sys.argv[1]], sys.argv[2:], 100)
