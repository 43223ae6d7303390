"""Worker for A03: helpw.py MODE SEED START COUNT PROGRESS TIER

Calls of the helpers of pymbs.common.functions and pymbs.common.simple with arguments of every admissible kind; the texts of
the results are evaluated with numpy and compared with the mathematical definition."""
import os, sys, math, warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from worker import run, Fail, CaseTimeout
import bindw
from bindw import ev, Hush, counts
import pymbs.symbolics as S
import pymbs.common.functions as F
from pymbs.common.simple import simple

ANG = [0, 1, -1, 2, 0.5, -0.25, 3.0, math.pi / 2, math.pi, 1e-3, 12, -7.5]

class H:
    def __init__(self, rng, out):
        self.rng, self.out, self.env, self.k = rng, out, {}, 0
    def symbol(self, shape=(), lo=-2, hi=2):
        n = self.rng.choice(["s", "long_name_", "X", "der_"]) + str(self.k); self.k += 1
        two = () if not shape else (shape[0], 1) if len(shape) == 1 else shape
        v = np.array([round(self.rng.uniform(lo, hi), 3) for _ in range(int(np.prod(two, dtype=int)) or 1)]).reshape(two or (1, 1))
        self.env[n] = np.matrix(v) if shape else float(v[0, 0])
        return S.Variable(n, shape)
    def scalar(self, lo=-2, hi=2, numbers=True):
        """(object, value)"""
        r = self.rng; k = r.randrange(8 if numbers else 4)
        if k < 2: o = self.symbol((), lo, hi)
        elif k == 2:
            a = self.symbol((), lo / 2, hi / 2); o = r.choice([lambda: a * 2, lambda: a + a, lambda: (a * 1.5) / 2 + a * .5])()
        elif k == 3:
            w = self.symbol((3,), lo, hi); o = w[r.randrange(3)]
        elif k == 4: o = r.choice([0, 1, 2, -1, 3]) if lo < -1 else 1
        elif k == 5: o = round(r.uniform(lo, hi), 3)
        elif k == 6: o = S.Number(round(r.uniform(lo, hi), 2))
        else: o = np.float64(round(r.uniform(lo, hi), 4))
        return o, float(ev(o, self.env)[0, 0])
    def vector(self, n, kinds="ml"):
        """a vector of n elements as symbol, matrix, list, zeros or expression"""
        k = self.rng.choice(kinds)
        if k == "s": o = self.symbol((n,))
        elif k == "z": o = S.zeros((n,))
        elif k == "e":
            a = self.symbol((n,)); o = self.rng.choice([lambda: a * 2, lambda: a + a, lambda: -a])()
        else:
            el = [self.scalar() for _ in range(n)]
            if k == "m": return S.Matrix([e[0] for e in el]), np.array([[e[1]] for e in el])
            return (list if k == "l" else tuple)(e[0] for e in el), np.array([[e[1]] for e in el])
        return o, ev(o, self.env)
    def matrix(self, n, m, kinds="msz"):
        k = self.rng.choice(kinds)
        if k == "s": o = self.symbol((n, m))
        elif k == "z": o = S.zeros((n, m))
        elif k == "e":
            a = self.symbol((n, m)); o = self.rng.choice([lambda: a * 2, lambda: a + a, lambda: -a])()
        else:
            el = [[self.scalar() for _ in range(m)] for _ in range(n)]
            return S.Matrix([[e[0] for e in r] for r in el]), np.array([[e[1] for e in r] for r in el])
        return o, ev(o, self.env)

def one(h):
    """name, function, arguments, expected value"""
    r = h.rng; k = r.randrange(22)
    if k == 0:
        a, v = h.scalar(.1, 5); return "sqrt", F.sqrt, [a], np.sqrt(v)
    if k == 1:
        n, f = r.choice([("sin", np.sin), ("cos", np.cos), ("tan", np.tan), ("atan", np.arctan)])
        a, v = h.scalar(-1.4, 1.4) if r.random() < .7 else (lambda x: (x, x))(r.choice(ANG))
        return n, getattr(F, n), [a], f(v)
    if k == 2:
        n, f = r.choice([("asin", np.arcsin), ("acos", np.arccos)])
        a, v = h.scalar(-.49, .49) if r.random() < .7 else (lambda x: (x, x))(r.choice([0, 1, -1, .5, 0.0, 1.0]))
        return n, getattr(F, n), [a], f(v)
    if k == 3:
        (a, v), (b, w) = h.scalar(), h.scalar()
        if abs(v) < .01 or abs(w) < .01: return      # the branch cut
        return "atan2", F.atan2, [a, b], np.arctan2(v, w)
    if k == 4:
        (a, v), (b, w) = h.vector(3, "smze"), h.vector(3, "sme"); return "outer", F.outer, [a, b], v @ w.T
    if k == 5:
        n = r.randrange(2, 6); a, v = h.vector(n, "mml"); return "diag", F.diag, [a], np.diag(v.ravel())
    if k == 6:
        a, v = h.vector(3, "smmz") if r.random() < .8 else h.matrix(3, 1, "sm"); return "norm", F.norm, [a], np.linalg.norm(v)
    if k == 7:
        a, v = h.vector(6, "mlt"); v = v.ravel()
        return "symmetric_matrix", F.symmetric_matrix, [a], np.array([[v[0], v[1], v[3]], [v[1], v[2], v[4]], [v[3], v[4], v[5]]])
    if k in (8, 9):
        R = [r.randrange(1, 4) for _ in range(r.randrange(1, 4))]; C = [r.randrange(1, 4) for _ in range(r.randrange(1, 4))]
        b = [[h.matrix(n, m) if (n, m) != (1, 1) else (lambda s: (S.Matrix([[s[0]]]), np.array([[s[1]]])))(h.scalar()) for m in C] for n in R]
        if sum(R) * sum(C) == 1: return
        return "block_matrix", F.block_matrix, [[[x[0] for x in row] for row in b]], np.block([[x[1] for x in row] for row in b])
    if k == 10:
        b = [h.vector(r.randrange(2, 5), "smz") for _ in range(r.randrange(1, 5))]
        return "block_vector", F.block_vector, [[x[0] for x in b]], np.vstack([x[1] for x in b])
    if k == 11:
        a, v = r.choice([h.scalar, lambda: h.vector(r.randrange(2, 5), "smze"), lambda: h.matrix(r.randrange(2, 4), r.randrange(2, 4), "smze")])()
        return "transpose", F.transpose, [a], np.atleast_2d(v).T
    if k == 12:
        a, v = h.vector(3, "smze"); v = v.ravel()
        return "skew", F.skew, [a], np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
    if k == 13:
        v = np.array([[round(r.uniform(-3, 3), 3)] for _ in range(3)]); a = np.matrix(v); v = v.ravel()
        return "skew_numpy", F.skew_numpy, [a], np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
    if k == 14:
        c = r.randrange(4)
        if c == 0: a, v = h.scalar(); return "scalar_if_possible", F.scalar_if_possible, [a], v
        if c == 1:
            x, v = h.scalar(); return "scalar_if_possible", F.scalar_if_possible, [S.Matrix([[x]]) if r.random() < .5 else S.Matrix([x])], v
        if c == 2: a = h.symbol(r.choice([(1,), (1, 1)])); return "scalar_if_possible", F.scalar_if_possible, [a], ev(a, h.env)
        a, v = h.matrix(2, 2, "smze") if r.random() < .5 else h.vector(3, "smze"); return "scalar_if_possible", F.scalar_if_possible, [a], v
    if k == 15:
        n, m = r.choice([(3, 1), (1, 1), (2, 1), (2, 2), (1, 3)]); v = np.array([[round(r.uniform(-3, 3), 3) for _ in range(m)] for _ in range(n)])
        return "vector_if_possible", F.vector_if_possible, [np.matrix(v)], v
    if k == 16:
        c = r.randrange(3)
        if c == 0: a, v = h.scalar(); return "scalar", F.scalar, [a], v
        if c == 1: x, v = h.scalar(); return "scalar", F.scalar, [S.Matrix([[x]]) if r.random() < .5 else S.Matrix([x])], v
        (a, v), (b, w) = h.vector(3, "sm"), h.vector(3, "sm"); return "scalar", F.scalar, [S.transpose(a) * b], v.T @ w
    if k == 17:
        n = r.choice([2, 3]); A = h.symbol((n, n)) if r.random() < .6 else S.Matrix([[h.scalar()[0] for _ in range(n)] for _ in range(n)]); V = ev(A, h.env)
        if np.linalg.cond(V) > 1e3: return
        b, w = h.vector(n, "sm"); return "solve", F.solve, [A, b], np.linalg.solve(V, w)
    if k == 18:
        n, m = r.choice([(2, 2), (3, 3), (2, 3), (3, 2)]); a, v = h.matrix(n, m, "smz"); i, j = r.randrange(n), r.randrange(m)
        return "element", F.element, [a, i, j], v[i, j]
    if k in (19, 20):
        a, v = h.scalar(-3, 3) if r.random() < .6 else (lambda x: (x, x))(r.choice(ANG)); ax = r.randrange(3); c, s = math.cos(v), math.sin(v)
        name = r.choice([(1, "x", "X", "Rx"), (2, "y", "Y", "Ry"), (3, "z", "Z", "Rz")][ax])
        R = [[[1, 0, 0], [0, c, s], [0, -s, c]], [[c, 0, -s], [0, 1, 0], [s, 0, c]], [[c, s, 0], [-s, c, 0], [0, 0, 1]]][ax]
        return "rot_mat", F.rot_mat, [a, name], np.array(R)
    a, v = r.choice([h.scalar, lambda: h.vector(3, "sme"), lambda: h.matrix(2, 2, "sme")])()
    return "simple", simple, [a], v

def bad(h):
    """arguments the helpers do not accept"""
    r = h.rng; k = r.randrange(9); s = h.symbol()
    if k == 0: return "diag", F.diag, [r.choice([s, 3, None, (1, 2), S.Matrix([[1, 2], [3, 4]]), "ab"])]
    if k == 1: return "norm", F.norm, [r.choice([s, [1, 2, 3], S.Matrix([1, 2]), S.Matrix([[1, 2, 3]]), S.Matrix([1, 2, 3, 4]), h.symbol((3, 3)), None, 2.5])]
    if k == 2: return "symmetric_matrix", F.symmetric_matrix, [r.choice([[1, 2, 3], [1, 2, 3, 4, 5], S.Matrix([1, 2, 3]), None, 3, s, [1, 2, 3, 4, 5, None], [1, 2, 3, 4, "a", 6]])]
    if k == 3:
        A, B, C = h.symbol((2, 2)), h.symbol((3, 3)), h.symbol((2, 3))
        return "block_matrix", F.block_matrix, [r.choice([[], [[]], [A], A, [[A, B]], [[A], [B]], [[A, C], [C]], [[A], [A, C]], [[h.symbol((2,))]], [[s]], [[1]], [[A, A], [C, A]], [[C, A], [A, C, A]], None])]
    if k == 4: return "block_vector", F.block_vector, [r.choice([[], h.symbol((3,)), [h.symbol((2, 2))], [s], [1, 2], [[1, 2]], None, [h.symbol((3,)), h.symbol((3, 1))]])]
    if k == 5: return "transpose", F.transpose, [r.choice([None, "a", [1, 2], np.matrix([[1, 2]])])]
    if k == 6: return "skew", F.skew, [r.choice([None, 3, [1, 2, 3], S.Matrix([1, 2]), S.Matrix([[1, 2], [3, 4]]), h.symbol((2,)), h.symbol((3, 3)), s])]
    if k == 7: return "rot_mat", F.rot_mat, [r.choice([s, .5]), r.choice([0, 4, "w", "", None, "Tx", "xy", -1, 1.5])]
    if r.random() < .3: return "skew_numpy", F.skew_numpy, [r.choice([None, [1, 2, 3], s, np.matrix([[1, 2, 3]]), np.matrix([[1], [2]])])]
    return "solve", F.solve, [r.choice([h.symbol((2, 2)), h.symbol((2, 3)), s, None]), r.choice([h.symbol((3,)), None, "a"])]

def fmt(args):
    try: return ", ".join(str(a) if not isinstance(a, (list, tuple)) else "[" + fmt(a) + "]" for a in args)
    except Exception: return "?"

def case(out, rng, idx, tier):
    h = H(rng, out)
    for _ in range(30):
        if rng.random() < .15:
            nm, f, args = bad(h); before = fmt(args)
            try:
                with Hush(): r = f(*args)
            except CaseTimeout: raise
            except BaseException as e:
                if not bindw.exec_ok(e): raise
                out.inc("refused"); out.group("refusals", nm)
                if fmt(args) != before: raise Fail("argument-changed", nm, "%s -> %s" % (before, fmt(args)))
                continue
            raise Fail("accepted", nm, "%s(%s) = %s" % (nm, before, r))
        q = one(h)
        if not q: continue
        nm, f, args, exp = q
        before = fmt(args); n = counts(args)
        try:
            with Hush(): o = f(*args)
        except BaseException as e:
            if not bindw.exec_ok(e): raise
            raise Fail("refused", nm, "%s(%s): %r" % (nm, before, e))
        if nm not in ("simple", "norm") and fmt(args) != before: raise Fail("argument-changed", nm, "%s(%s): now %s" % (nm, before, fmt(args)))
        if fmt(args) != before:      # simplification happens in place
            for a, t in zip(args, [before]):
                if isinstance(a, S.Basic) and not np.allclose(ev(a, h.env), ev(before, h.env), atol=1e-9): raise Fail("argument-changed", nm, "%s: now %s" % (before, fmt(args)))
        exp = np.atleast_2d(np.asarray(exp, dtype=float))
        if isinstance(o, (S.Basic, int, float)): v = ev(o, h.env)
        else: v = np.array(o, dtype=float); v = v.reshape(-1, 1) if v.ndim == 1 else v
        if v.shape != exp.shape: raise Fail("shape", nm, "%s(%s) = %s, shape %s, expected %s" % (nm, before, o, v.shape, exp.shape))
        if not np.max(np.abs(v - exp)) <= 1e-9 * (1 + np.max(np.abs(exp))) * (1e3 if nm == "solve" else 1): raise Fail("value", nm, "%s(%s) = %s = %s expected %s" % (nm, before, o, v.tolist(), exp.tolist()))
        if nm in ("sqrt", "norm", "scalar", "element") and isinstance(o, S.Basic) and o.shape() != (): raise Fail("shape", nm, "%s(%s) = %s is not scalar" % (nm, before, o))
        out.inc("comparisons"); out.group("calls", nm)
        if any(isinstance(a, (S.Basic, list)) for a in args): out.inc("distinct")
        if rng.random() < .02: out.sample({"call": "%s(%s)" % (nm, before[:200]), "result": str(o)[:200]})

if __name__ == "__main__":
    run("helpers", case, sys.argv[2:])
