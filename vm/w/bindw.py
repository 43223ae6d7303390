"""Worker for S07: bindw.py MODE SEED START COUNT PROGRESS TIER

One random history of calls on the Python objects per case. Well-formed calls are compared with numpy, everything else must
raise a Python exception; the text of every object is compared before and after, as are the reference counts of the arguments."""
import os, sys, math, tempfile, shutil, warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import graphw
from worker import run, Fail, CaseTimeout
import pymbs.symbolics as S
from pymbs.symbolics import symbolics as C, graph as GM

NS = dict(graphw.NS); NS["float"] = float; NS["nan"] = float("nan"); NS["inf"] = float("inf")
OURS = (GM.VarAlreadyExistsError, GM.VarUnknownError, GM.EquationAlreadyExistsError, GM.ShapeError)

def exec_ok(e):
    return isinstance(e, OURS) or (isinstance(e, Exception) and not isinstance(e, (SystemError, Fail, CaseTimeout)))

def ev(o, env):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        t = str(o)
        try: r = eval(t, NS, env)
        except Exception as e:
            raise Fail("text", type(e).__name__, "%s: %s" % (t[:600], e))
    a = np.array(r, dtype=float)
    return a.reshape(1, 1) if a.ndim == 0 else a.reshape(-1, 1) if a.ndim == 1 else a

class H:
    def __init__(self, rng, out):
        self.rng, self.out = rng, out
        self.g = S.Graph(); self.env = {}; self.pool = []; self.graphs = [self.g]
        k = 0
        for sh in [(), (), (), (3,), (3,), (2,), (3, 3), (2, 2), (2, 3)]:            # 1x1 matrices are treated as scalars in some places and are left out
            n = "s%d" % k; k += 1
            o = self.g.addVariable(n, sh, rng.choice([1, 2, 4, 8])) if rng.random() < .7 else S.Symbol(n, sh)
            two = () if not sh else (sh[0], 1) if len(sh) == 1 else sh
            v = np.array([round(rng.uniform(-2, 2), 3) for _ in range(int(np.prod(two, dtype=int)) or 1)]).reshape(two or (1, 1))
            self.env[n] = np.matrix(v) if sh else float(v[0, 0])
            self.add(o, v)
        for v in (S.Matrix([1, 2.5, -3]), S.Matrix([[1, 2], [3, 4.5]]), S.Matrix((3, 3)), S.zeros((3,)), S.zeros((2, 2)), S.eye((3, 3)), S.Number(2), S.Number(-1.5), S.zeros(()), 3, -2.5):
            self.add(v, ev(v, self.env))
    def add(self, o, v):
        self.pool.append([o, v, str(o)])
        if len(self.pool) > 60: del self.pool[self.rng.randrange(21, 40)]
    def pick(self, pred=lambda p: True, tries=40):
        for _ in range(tries):
            p = self.rng.choice(self.pool)
            if p[1] is not None and pred(p): return p
        return None
    def changed(self, where, but=()):
        for p in self.pool:
            t = str(p[0])
            if p not in but and t != p[2]:       # simplifying an object rewrites the operands it shares with others, their values stay
                v = ev(p[0], self.env)
                if v.size != p[1].size or not np.max(np.abs(v.reshape(p[1].shape) - p[1]), initial=0) <= 1e-6 * (1 + np.max(np.abs(p[1]), initial=0)):
                    raise Fail("value-changed", where, "%s became %s: %s, was %s" % (p[2], t, v.tolist(), p[1].tolist()))
                p[2] = t

def is1(p): return p[1].shape == (1, 1)
def col(p): return p[1].shape[1] == 1
def scal(p): return is1(p) and shape_of(p[0]) == ()
def shape_of(o): return () if isinstance(o, (int, float)) else o.shape()
def basic(p): return isinstance(p[0], S.Basic)
def skew(v): v = v.ravel(); return np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])

# ------------------------------------------------------------------------------------------------ well-formed calls
def good(h):
    """(name, function, arguments, expected value, tolerance factor) or None"""
    r = h.rng; k = r.randrange(24)
    big = 1.0
    if k in (0, 1, 2):
        a = h.pick(); b = h.pick(lambda p: p[1].shape == a[1].shape and shape_of(p[0]) == shape_of(a[0]) and (basic(p) or basic(a)))
        if b is None: return
        return ("add", lambda x, y: x + y, [a[0], b[0]], a[1] + b[1], 1) if k else ("sub", lambda x, y: x - y, [a[0], b[0]], a[1] - b[1], 1)
    if k in (3, 4):
        a = h.pick(scal); b = h.pick(lambda p: basic(p) or basic(a))
        if b is None: return
        if r.random() < .5: return ("mul", lambda x, y: x * y, [a[0], b[0]], a[1][0, 0] * b[1], 1)
        return ("mul", lambda x, y: x * y, [b[0], a[0]], a[1][0, 0] * b[1], 1)
    if k == 5:
        a = h.pick(lambda p: not is1(p)); b = h.pick(lambda p: not is1(p) and p[1].shape[0] == a[1].shape[1])
        if b is None: return
        return ("matmul", lambda x, y: x * y, [a[0], b[0]], a[1] @ b[1], 1)
    if k == 6:
        a = h.pick(); b = h.pick(lambda p: scal(p) and abs(p[1][0, 0]) > .1 and (basic(p) or basic(a)))
        return b and ("div", lambda x, y: x / y, [a[0], b[0]], a[1] / b[1][0, 0], 10)
    if k == 7:
        a = h.pick(lambda p: scal(p) and basic(p) and p[1][0, 0] > .1); e = r.choice([2, 3, -1, -2, .5, 1, 0, 2.0, 1.5])
        return a and ("pow", lambda x, y: x ** y, [a[0], e], a[1] ** e, 10)
    if k == 8:
        a = h.pick(lambda p: scal(p) and basic(p))
        return r.choice([("neg", lambda x: -x, [a[0]], -a[1], 1), ("abs", abs, [a[0]], abs(a[1]), 1)])
    if k == 9:
        f, n = r.choice([("sin", np.sin), ("cos", np.cos), ("tan", np.tan), ("atan", np.arctan)])
        a = h.pick(lambda p: scal(p) and (f != "tan" or abs(np.cos(p[1][0, 0])) > .1) and abs(p[1][0, 0]) < 1e3)
        if f in ("atan",): a = h.pick(lambda p: scal(p) and not str(p[0]).startswith("tan("))
        return a and (f, getattr(S, f), [a[0]], n(a[1]), 100)
    if k == 10:
        a, b = h.pick(scal), h.pick(lambda p: scal(p) and abs(p[1][0, 0]) > .05)
        return b and ("atan2", S.atan2, [a[0], b[0]], np.arctan2(a[1], b[1]), 10) if abs(a[1][0, 0]) > .05 else None
    if k == 11:
        a = h.pick(basic); return ("transpose", S.transpose, [a[0]], a[1].T, 1)
    if k == 12:
        a = h.pick(lambda p: p[1].shape == (3, 1) and basic(p) and shape_of(p[0]) == (3,)); return a and ("skew", S.skew, [a[0]], skew(a[1]), 1)
    if k == 13:
        a = h.pick(is1); return a and ("scalar", S.scalar, [a[0]], a[1], 1)
    if k == 14:
        A = h.pick(lambda p: p[1].shape in ((2, 2), (3, 3)) and np.linalg.cond(p[1]) < 1e3)
        if A is None: return
        c = 1e3
        if r.random() < .4: return ("inv", S.inv, [A[0]], np.linalg.inv(A[1]), c)
        b = h.pick(lambda p: p[1].shape == (A[1].shape[0], 1))
        return b and ("solve", S.solve, [A[0], b[0]], np.linalg.solve(A[1], b[1]), c)
    if k == 15:
        a = h.pick(lambda p: basic(p)); i, j = r.randrange(a[1].shape[0]), r.randrange(a[1].shape[1])
        return ("element", S.element, [a[0], i, j], a[1][i:i + 1, j:j + 1], 1)
    if k == 16:
        a = h.pick(lambda p: basic(p) and col(p) and not scal(p) and len(shape_of(p[0])) == 1); i = a and r.randrange(a[1].shape[0])
        if a is None: return
        if r.random() < .5: return ("[i]", lambda x, k_: x[k_], [a[0], i], a[1][i:i + 1], 1)
        s = rslice(r, a[1].shape[0])
        return s and ("[slice]", lambda x, k_: x[k_], [a[0], s], a[1][s], 1)
    if k in (17, 18):
        a = h.pick(lambda p: basic(p) and len(shape_of(p[0])) == 2)
        if a is None: return
        i = r.choice([r.randrange(a[1].shape[0]), rslice(r, a[1].shape[0])]); j = r.choice([r.randrange(a[1].shape[1]), rslice(r, a[1].shape[1])])
        if i is None or j is None: return
        if str(type(a[0])).find("CEye") > 0: return
        e = np.atleast_2d(np.asarray(a[1])[i, :] if isinstance(i, slice) else np.asarray(a[1])[i:i + 1, :])
        e = e[:, j] if isinstance(j, slice) else e[:, j:j + 1]
        return ("[i,j]", lambda x, k_: x[k_], [a[0], (i, j)], e, 1)
    if k == 19:
        n, m = r.choice([(1, 2), (2, 1), (3, 1), (1, 3), (2, 2), (2, 3), (3, 3), (3, 2)])
        el = [[h.pick(scal) for _ in range(m)] for _ in range(n)]
        if n > 1 and r.random() < .4: return ("Matrix(vector)", S.Matrix, [[e[0][0] for e in el]], np.array([[e[0][1][0, 0]] for e in el]), 1)
        return ("Matrix", S.Matrix, [[[x[0] for x in e] for e in el]], np.array([[x[1][0, 0] for x in e] for e in el]), 1)
    if k == 20:
        a, b = h.pick(scal), h.pick(scal)
        c = h.pick(); d = h.pick(lambda p: p[1].shape == c[1].shape and shape_of(p[0]) == shape_of(c[0]))
        if d is None: return
        nm, f, op = r.choice([("Less", S.Less, lambda x, y: x < y), ("Greater", S.Greater, lambda x, y: x > y), ("Equal", S.Equal, lambda x, y: x == y)])
        if nm == "Equal" and r.random() < .5: b = a
        x, y = a[1][0, 0], b[1][0, 0]
        if abs(x - y) < 1e-6 and not (b is a or isinstance(a[0], (int, float)) and isinstance(b[0], (int, float))): return
        return ("If(%s)" % nm, lambda p, q, s, t: S.If(f(p, q), s, t), [a[0], b[0], c[0], d[0]], c[1] if op(x, y) else d[1], 1)
    if k == 21:
        a = h.pick(lambda p: scal(p) and abs(p[1][0, 0]) > .01); return a and ("sign", S.sign, [a[0]], np.sign(a[1]), 1)
    if k == 22:
        a = h.pick(lambda p: isinstance(p[0], S.Matrix) and len(shape_of(p[0])) == 1)
        return a and ("norm", lambda x: x.norm(), [a[0]], np.array([[np.linalg.norm(a[1])]]), 1)
    if k == 23:
        a, b = (h.pick(lambda p: len(shape_of(p[0])) == 1 and col(p) and p[1].shape[0] == 3) for _ in "ab")
        return a and b and ("outer", S.outer, [a[0], b[0]], a[1] @ b[1].T, 1)

def rslice(r, n):
    i = r.randrange(n); j = r.randrange(i + 1, n + 1)
    return slice(r.choice([i, None]) if i == 0 else i, r.choice([j, None]) if j == n else j, r.choice([None, 1, 2]))

def counts(args):
    c = []
    for a in args:
        c.append(sys.getrefcount(a))
        if isinstance(a, (list, tuple)):
            for x in a: c.append(sys.getrefcount(x))
    return c

def do_good(h):
    q = good(h)
    if not q: return
    nm, f, args, exp, tf = q
    if not np.all(np.isfinite(exp)) or np.max(np.abs(exp), initial=0) > 1e6: return
    before = counts(args)
    try: o = f(*args)
    except BaseException as e:
        if not exec_ok(e): raise
        raise Fail("refused", nm, "%s(%s) raised %s" % (nm, ", ".join(map(str, args)), e))
    after = counts(args)
    if before != after: raise Fail("reference-count", nm, "%s(%s): %s -> %s" % (nm, args, before, after))
    h.out.inc("reference counts", len(before))
    v = ev(o, h.env)
    scale = 1 + max([np.max(np.abs(exp))] + [np.max(np.abs(p[1])) for p in h.pool if p[1] is not None and any(p[0] is a for a in args)])
    if v.shape != exp.shape: raise Fail("shape", nm, "%s(%s) = %s has shape %s, expected %s" % (nm, ", ".join(map(str, args)), o, v.shape, exp.shape))
    if not np.max(np.abs(v - exp), initial=0) <= 1e-9 * scale * scale * tf: raise Fail("value", nm, "%s(%s) = %s: %s expected %s" % (nm, ", ".join(map(str, args)), o, v.tolist(), exp.tolist()))
    h.out.inc("comparisons"); h.out.group("calls", nm)
    if len(str(o)) < 400: h.add(o, v)

def do_set(h):
    """writing elements"""
    r = h.rng
    p = h.pick(lambda p: type(p[0]) in (S.Matrix, S.zeros) and not shape_of(p[0]) == () and not (len(shape_of(p[0])) == 1 and p[1].shape[0] == 1))
    if p is None: return
    o = p[0]
    if r.random() < .5:          # an object of its own
        o = S.Matrix([[x for x in row] for row in p[1].tolist()]) if len(shape_of(o)) == 2 else S.Matrix(p[1].ravel().tolist())
        p = [o, p[1], str(o)]; h.pool.append(p)
    v = p[1].copy(); deps = o * 2 + o; held = str(deps)
    if len(shape_of(o)) == 1:
        k = r.choice([r.randrange(v.shape[0]), rslice(r, v.shape[0])]); idx = (k, slice(None)) if isinstance(k, slice) else (slice(k, k + 1), slice(0, 1)); key = k
    else:
        i = r.choice([r.randrange(v.shape[0]), rslice(r, v.shape[0])]); j = r.choice([r.randrange(v.shape[1]), rslice(r, v.shape[1])]); key = (i, j)
        idx = (i if isinstance(i, slice) else slice(i, i + 1), j if isinstance(j, slice) else slice(j, j + 1))
    sub = v[idx]
    q = h.pick(lambda x: x[1].shape == sub.shape and (sub.size > 1 or scal(x)))
    if q is None: return
    try: o[key] = q[0]
    except BaseException as e:
        if not exec_ok(e): raise
        raise Fail("refused", "set", "%s[%s] = %s raised %s" % (o, key, q[0], e))
    v[idx] = q[1]
    got = ev(o, h.env)
    if got.shape != v.shape or not np.allclose(got, v, rtol=1e-9, atol=1e-9): raise Fail("value", "set", "[%s] = %s gives %s, expected %s" % (key, q[0], o, v.tolist()))
    if str(deps) != held: raise Fail("value-changed", "set", "an expression using the matrix changed from %s to %s" % (held, deps))
    p[1], p[2] = v, str(o)
    for x in h.pool:
        if x[0] is o: x[1], x[2] = v, str(o)
    h.out.inc("comparisons"); h.out.group("calls", "set")

def do_simplify(h):
    p = h.pick(basic)
    p[0].simplify()
    v = ev(p[0], h.env)
    s = 1 + np.max(np.abs(p[1]), initial=0)
    if v.shape != p[1].shape and v.size != 1 or not np.max(np.abs(v - p[1]), initial=0) <= 1e-6 * s: raise Fail("value", "simplify", "%s became %s: %s expected %s" % (p[2], p[0], v.tolist(), p[1].tolist()))
    for x in h.pool:
        if x[0] is p[0]: x[2] = str(p[0])
    h.out.inc("comparisons"); h.out.group("calls", "simplify")

def do_bounds(h):
    """an index outside the shape is refused, for reading and for writing"""
    r = h.rng; p = h.pick(basic); o = p[0]
    m, n = p[1].shape
    bad = lambda k: r.choice([k, k, k + 1, k + r.randrange(5), -1, -k, -1 - k])
    good = lambda k: r.randrange(k)
    c = r.randrange(4)
    key = (bad(m), good(n)) if c == 0 else (good(m), bad(n)) if c == 1 else (bad(m), bad(n)) if c == 2 else r.choice([m * n, m * n + 1, -1, -m * n])
    what = r.choice(["read", "element", "write", "write"])
    if isinstance(key, int) and what == "element": key = (bad(m), 0)
    if what == "element" and not shape_of(o): what = "read"
    if what == "write" and (type(o) not in (S.Matrix, S.zeros) or not shape_of(o)): what = "read"
    held = str(o)
    try:
        if what == "read": got = o[key]
        elif what == "element": got = S.element(o, *key)
        else: o[key] = 1; got = o
    except BaseException as e:
        if not exec_ok(e): raise
        if str(o) != held: raise Fail("value-changed", "bounds", "%s became %s by a refused %s of %s" % (held, o, what, key))
        h.out.inc("refusals"); h.out.group("calls", "bounds"); return
    raise Fail("accepted", what, "index %s of %s with shape %s gives %s" % (key, held, shape_of(o), got))

def do_info(h):
    p = h.pick(basic); o = p[0]
    sh = o.shape(); exp = p[1].shape
    if int(np.prod(sh, dtype=int)) != p[1].size or len(o) != p[1].size or (len(sh) == 2 and tuple(sh) != exp): raise Fail("shape", "shape()", "%s: %s len %s, value has %s" % (o, sh, len(o), exp))
    names = {str(a) for a in o.atoms() if isinstance(a, S.Symbol)}
    if not names <= set(h.env): raise Fail("atoms", "unknown", "%s of %s" % (names, o))
    e = dict(h.env)
    for n in set(h.env) - names:
        if n.startswith("s"): e[n] = h.env[n] * 0 + float("nan")
    v = ev(o, e)
    if not np.all(np.isfinite(v)): raise Fail("atoms", "missing", "%s depends on more than %s" % (o, names))
    if not (o == o) or o != o: raise Fail("value", "==", str(o))
    h.out.inc("comparisons"); h.out.group("calls", "info")

# ------------------------------------------------------------------------------------------------ hostile calls
class Odd:
    args = (1,)
    name = "odd"
    def __str__(self): raise ValueError("odd")
    def __index__(self): raise TypeError("odd index")

def weird(h):
    r = h.rng; k = r.randrange(14)
    if k < 6: return r.choice(h.pool)[0]
    if k == 6: return r.choice([None, True, "x", "", b"x", 1j, Odd(), Odd, len, object(), {}, {"a": 1}, set(), NotImplemented, Ellipsis])
    if k == 7: return r.choice([0, 1, -1, 2, 5, 2**31, -2**31, 2**63, -2**63, 2**64, 10**30, 10**400])
    if k == 8: return r.choice([0.0, -0.0, 1e308, -1e308, 5e-324, float("nan"), float("inf"), -float("inf"), .5])
    if k == 9: return [weird(h) for _ in range(r.randrange(4))]
    if k == 10: return tuple(weird(h) for _ in range(r.randrange(4)))
    if k == 11: return r.choice([(), (1,), (2, 2), (3, 3), (0,), (-1,), (1, 2, 3), (1, 1, 2), (2, 2, 2, 2), (2.5,), ("a",), (3, None), slice(None), slice(2, 1), slice(0, 9, -1), slice("a"), slice(0, 3, 0), 10 ** 20])
    if k == 12: return r.choice([np.matrix([[1, 2], [3, 4]]), np.array([1., 2]), np.float64(2), np.int64(3), np.array(3)])
    return r.choice([S.Matrix, S.sin, S.Graph, S.Basic]) if r.random() < .3 else new(h)

def new(h):
    """an object whose __init__ did not run or failed"""
    t = h.rng.choice([S.Basic, S.Matrix, S.Symbol, S.sin, S.der, S.Number, S.zeros])
    return t.__new__(t)

def small(x):
    """sizes that would only exhaust the memory are left out"""
    if isinstance(x, (tuple, list)): return all(small(e) for e in x)
    return not (isinstance(x, int) and not isinstance(x, bool) and abs(x) > 50)

FUN = ["acos", "asin", "atan", "atan2", "sin", "cos", "tan", "element", "scalar", "skew", "der", "solve", "transpose", "outer", "jacobian", "inv", "sign", "If", "Less",
       "Greater", "Equal", "Number", "Symbol", "Basic"]
OPS = [("+", lambda a, b: a + b), ("-", lambda a, b: a - b), ("*", lambda a, b: a * b), ("/", lambda a, b: a / b), ("**", lambda a, b: a ** b), ("==", lambda a, b: a == b),
       ("!=", lambda a, b: a != b), ("<", lambda a, b: a < b), (">", lambda a, b: a > b), ("<=", lambda a, b: a <= b), ("[]", lambda a, b: a[b]), ("pow3", lambda a, b: pow(a, b, 2)),
       ("//", lambda a, b: a // b), ("@", lambda a, b: a @ b), ("iadd", lambda a, b: a.__add__(b)), ("in", lambda a, b: a in [b])]
UNI = [("neg", lambda a: -a), ("abs", abs), ("str", str), ("repr", repr), ("len", len), ("hash", hash), ("bool", bool), ("iter", lambda a: list(a) if len(a) < 20 else 0), ("float", float), ("int", int),
       ("shape", lambda a: a.shape()), ("atoms", lambda a: a.atoms()), ("norm", lambda a: a.norm()), ("dir", dir), ("copy", lambda a: __import__("copy").copy(a))]

def hostile(h):
    """(name, callable, args)"""
    r = h.rng; k = r.randrange(10)
    if k < 3:
        n = r.choice(FUN); return n, getattr(S, n), [weird(h) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4]))]
    if k < 5:
        n, f = r.choice(OPS); return n, f, [weird(h), weird(h)]
    if k == 5:
        n, f = r.choice(UNI); return n, f, [weird(h)]
    if k == 6:
        n = r.choice(["Matrix", "zeros", "eye"]); a = weird(h)
        return (n, getattr(S, n), [a]) if small(a) else None
    if k == 7:
        o = r.choice([S.Matrix([1, 2, 3]), S.Matrix([[1, 2], [3, 4]]), S.zeros((2, 2)), S.Matrix((1, 1)), S.sin(h.pool[0][0])])
        c = r.randrange(4)
        def setter(o, i, v):
            o[i] = v; s = str(o)
            if len(s) > 100000: raise ValueError()
        if c < 2: return "setitem", setter, [o, weird(h), weird(h) if c else o]
        def delete(o, i): del o[i]
        return ("delitem", delete, [o, weird(h)]) if c == 2 else ("setattr", lambda o, v: setattr(o, r.choice(["x", "args", "shape"]), v), [o, weird(h)])
    return graph_call(h)

KINDS = [1, 2, 4, 8, 0x10, 0x20, 0x100, 0x200, 0x400, 0, -1, 3, 2**31, "a", None]
def graph_call(h):
    r = h.rng
    if r.random() < .15 or not h.graphs:
        h.graphs.append(r.choice([S.Graph(), S.Graph()])); h.graphs = h.graphs[-3:]
    g = r.choice(h.graphs); cg = g.cgraph
    if r.random() < .04: cg = C.CGraph.__new__(C.CGraph)
    w = lambda: weird(h)
    nm = lambda: r.choice(["x%d" % r.randrange(6), "x1", "time", "der_x1", "", "a b", "x[0]", w()])
    sh = lambda: r.choice([(), (), (3,), (2, 2), (1, 1), (1, 3), (1, 1, 3), w()])
    k = r.randrange(11)
    def var(): return r.choice([v for v in (g.getVariables(r.choice([1, 2, 4, 8, 16, 255])) or [w()])])
    if k < 3:
        s = sh()
        return ("addVariable", g.addVariable, [nm(), s, r.choice(KINDS[:6] + KINDS), r.choice([None, None, 1.5, w()]), r.choice([None, "c", w()])]) if small(s) else None
    if k < 6:
        l = r.choice([var(), var(), w(), None, "y%d" % r.randrange(9)])
        if isinstance(l, S.Symbol) and r.random() < .3:
            try: l = S.der(l)
            except S.symbolics.Error if hasattr(S, "symbolics") else Exception: pass
        if r.random() < .2: l = [l, var()]
        return "addEquation", g.addEquation, [l, r.choice([var(), w(), [var(), w()], 1, 2.5]), r.choice([1, 1, 0x100]), None, r.random() < .1]
    if k == 6: return "buildGraph", g.buildGraph, [False if g is h.g else r.choice([True, False, w()])]      # optimising replaces variables of that graph by their right sides
    if k == 7: return "getVariables", g.getVariables, [r.choice(KINDS + [w()])]
    if k == 8:
        return r.choice([("getVariable", g.getVariable, [nm()]), ("getinitVal", g.getinitVal, [r.choice([var(), w()])]), ("getShape", g.getShape, [w()]), ("cgetShape", cg.getShape, [w()]),
                         ("caddVariable", cg.addVariable, [nm(), (), 1, None, "c"]), ("caddEquation", cg.addEquation, [w(), w()]), ("cbuild", cg.buildGraph, [g is not h.g]),
                         ("cgetVariables", cg.getVariables, [1]), ("cgetAssignments", cg.getAssignments, [w()])])
    if k == 9:
        def asg(kind): return [(str(a.lhs), str(a.rhs)) for a in g.getAssignments(kind)]
        return "getAssignments", asg, [r.choice([0x20, 0x100, w()])]
    def write(t, name, sub, **kw):
        d = tempfile.mkdtemp(dir=os.getcwd())
        try: g.writeCode(t, name, d if sub == "ok" else os.path.join(d, "missing") if sub == "missing" else sub, **kw)
        finally: shutil.rmtree(d, ignore_errors=True)
    t = r.choice(["py", "c", "f90", "m", "mo", "cs", "nope", "", w()])
    if g is h.g or isinstance(t, str) and t == "fmu": return
    name = r.choice(["m", "m", "", "a b", "\u00e4", "\udc80", None, 3, "x" * 300])
    return "writeCode", write, [t, name, r.choice(["ok", "ok", "missing", None, 3])]

def do_hostile(h):
    q = hostile(h)
    if not q: return
    nm, f, args = q
    if nm in ("**", "pow3", "*", "+", "-", "//", "hash") and not any(isinstance(a, S.Basic) for a in args): return    # nothing of the library involved
    if nm in ("iter",) and not isinstance(args[0], S.Basic): return
    before = counts(args)
    r = None
    try:
        with Hush(): r = f(*args)
        h.out.inc("accepted")
    except BaseException as e:
        if isinstance(e, (CaseTimeout, KeyboardInterrupt)): raise
        if not exec_ok(e): raise Fail("odd-exception", "%s %s" % (nm, type(e).__name__), "%s(%s): %s" % (nm, safe(args), e))
        h.out.inc("refused"); h.out.group("exceptions", type(e).__name__)
    h.out.group("hostile", nm); h.out.inc("evaluations")
    if nm not in ("==", "!=", "in", "dir"): del r
    after = counts(args)
    if len(before) == len(after) and nm not in ("addVariable", "addEquation", "copy", "setattr"):
        if before != after: raise Fail("reference-count", nm, "%s(%s): %s -> %s" % (nm, safe(args), before, after))
        h.out.inc("reference counts", len(before))

def safe(args):
    try: return ", ".join(map(repr, args))[:500]
    except BaseException as e: return "?"

class Hush:
    def __enter__(self):
        sys.stdout.flush(); sys.stderr.flush(); self.o, self.e = os.dup(1), os.dup(2); self.n = os.open(os.devnull, os.O_WRONLY); os.dup2(self.n, 1); os.dup2(self.n, 2)
    def __exit__(self, *a):
        sys.stdout.flush(); os.dup2(self.o, 1); os.dup2(self.e, 2)
        for f in (self.o, self.e, self.n): os.close(f)

def case(out, rng, idx, tier):
    h = H(rng, out)
    mix = rng.choice([.3, .6, .9])
    for k in range(60):
        x = rng.random()
        if x < mix: do_hostile(h)
        elif x < mix + (1 - mix) * .7: do_good(h)
        elif x < mix + (1 - mix) * .8: do_set(h)
        elif x < mix + (1 - mix) * .87: do_simplify(h)
        elif x < mix + (1 - mix) * .93: do_bounds(h)
        else: do_info(h)
        if k % 6 == 0: h.changed("after %d calls" % k)
    h.changed("at the end")
    out.inc("distinct"); out.sample({"idx": idx, "pool": [str(p[0])[:60] for p in h.pool[21:30]]})

def repeat(out, rng, idx, tier):
    """one call, several thousand times"""
    h = H(rng, out)
    q = None
    while not q or q[0] in ("writeCode", "addVariable", "addEquation", "buildGraph", "caddVariable", "caddEquation", "cbuild", "setattr", "delitem"): q = hostile(h) if rng.random() < .6 else good(h)
    nm, f, args = q[:3]
    if nm in ("**", "pow3", "*", "+", "-", "//", "hash") and not any(isinstance(a, S.Basic) for a in args): return
    first = None
    before = counts(args)
    with Hush():
        for k in range(2000):
            try: s = str(f(*args))[:200]
            except BaseException as e:
                if isinstance(e, (CaseTimeout, KeyboardInterrupt)): raise
                if not exec_ok(e): raise Fail("odd-exception", "%s %s" % (nm, type(e).__name__), "%s(%s): %s" % (nm, safe(args), e))
                s = "%s %s" % (type(e).__name__, str(e)[:200])
            if first is None: first = s
            elif s != first and " at 0x" not in s and nm != "setitem": raise Fail("not-repeatable", nm, "%s(%s) call %d: %s then %s" % (nm, safe(args), k, first, s))
    after = counts(args)
    if before != after and nm not in ("copy", "setattr", "setitem"): raise Fail("reference-count", nm, "%s(%s): %s -> %s" % (nm, safe(args), before, after))
    h.changed("repeating " + nm)
    out.inc("evaluations", 2000); out.inc("distinct"); out.group("repeated", nm); out.inc("reference counts", len(before))

if __name__ == "__main__":
    m = sys.argv[1].split("@")[0]
    run("binding " + m, {"calls": case, "repeat": repeat}[m], sys.argv[2:])
