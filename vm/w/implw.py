"""Worker for G04, systems with implicit equations: implw.py MODE SEED START COUNT PROGRESS TIER

Every system is generated together with a solution: the unknowns get values (in mode dae: Taylor series in time), every
equation is completed by a constant (a polynomial in time) so that it holds there.  The built graph is then run through:
every equation of every block has to hold at the solution, a block may only use what is known or what it determines, it
has as many equations as new unknowns, and these are determined by it (regular Jacobian)."""
import ast, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import modelica
from graphw import NS
from worker import run, Fail, CaseTimeout
import pymbs.symbolics as S
from pymbs.symbolics import symbolics as CS
from pymbs.symbolics import Graph, VarKind

ORDER = 4          # Taylor coefficients kept: value, 1st, 2nd, 3rd derivative / k!
class Jet:
    def __init__(s, c): s.c = np.asarray(c, float)
    @staticmethod
    def of(x): return x if isinstance(x, Jet) else Jet([float(x)] + [0.] * (ORDER - 1))
    def __add__(s, o): return Jet(s.c + Jet.of(o).c)
    __radd__ = __add__
    def __neg__(s): return Jet(-s.c)
    def __sub__(s, o): return Jet(s.c - Jet.of(o).c)
    def __rsub__(s, o): return Jet(Jet.of(o).c - s.c)
    def __mul__(s, o): return Jet(np.convolve(s.c, Jet.of(o).c)[:ORDER])
    __rmul__ = __mul__
    def __truediv__(s, o):
        o = Jet.of(o).c; q = np.zeros(ORDER)
        for k in range(ORDER): q[k] = (s.c[k] - sum(q[j] * o[k - j] for j in range(k))) / o[0]
        return Jet(q)
    def __rtruediv__(s, o): return Jet.of(o) / s
    def __pow__(s, n):
        r = Jet.of(1)
        for _ in range(n): r = r * s
        return r
    def der(s): return Jet(np.append(s.c[1:] * np.arange(1, ORDER), 0.))
    def d(s, k): return float(s.c[k] * np.prod(range(1, k + 1)))
def compose(f):
    """f gives value and the first three derivatives"""
    def g(x):
        x = Jet.of(x); d = f(x.c[0]); h = Jet(np.append([0.], x.c[1:])); r = Jet.of(d[0]); p = Jet.of(1)
        for k in range(1, ORDER): p = p * h; r = r + p * (d[k] / np.prod(range(1, k + 1)))
        return r
    return g
JSIN = compose(lambda v: (np.sin(v), np.cos(v), -np.sin(v), -np.cos(v)))
JCOS = compose(lambda v: (np.cos(v), -np.sin(v), -np.cos(v), np.sin(v)))

class Sys:
    """symbols with their series, equations as texts evaluated in both worlds"""
    def __init__(s, rng, dae):
        s.rng, s.dae = rng, dae
        s.val = {}                      # scalar name or (vector name, i) -> Jet
        s.kind, s.sh, s.order = {}, {}, []
        s.eqs = []                      # (lhs, text, form): form "explicit", "list", "none"
        s.n = 0
    def num(s): return round(s.rng.choice([-1, 1]) * s.rng.uniform(.4, 2.2), 3)
    def fresh(s, kind, n=0, p=None):
        s.n += 1; name = (p or {"st": "x", "par": "p", "in": "u", "var": "v", "sen": "w"}[kind]) + str(s.n)
        s.kind[name], s.sh[name] = kind, n; s.order.append(name)
        for k in range(n or 1):
            c = [s.rng.choice([-1, 1]) * s.rng.uniform(.3, 1.5)] + [s.rng.uniform(-1, 1) if s.dae and kind not in ("par", "in") else 0. for _ in range(ORDER - 1)]
            s.val[(name, k) if n else name] = Jet(c)
        return name
    def refs(s, names): return [r for n in names for r in (["%s[%d]" % (n, k) for k in range(s.sh[n])] if s.sh[n] else [n])]
    def term(s, refs):
        r = s.rng; a = r.choice(refs); b = r.choice(refs); k = r.randrange(7)
        if k == 0: return "%s*%s" % (a, b)
        if k == 1: return "sin(%s)" % a
        if k == 2: return "cos(%s+%s)" % (a, b)
        if k == 3: return "%r*%s" % (s.num(), a)
        if k == 4: return "(%s)**2" % a
        if k == 5: return "%s*sin(%s)" % (a, b)
        return "(%s-%r*%s)" % (a, s.num(), b)
    def known(s, refs, n=None):
        if not refs: return repr(s.num())
        return "+".join("%r*%s" % (s.num(), s.term(refs)) for _ in range(n or s.rng.choice([1, 1, 2])))
    # ---- evaluation
    def space(s):
        d = {"sin": JSIN, "cos": JCOS, "sign": lambda x: Jet.of(np.sign(Jet.of(x).c[0])), "abs": lambda x: x if x.c[0] >= 0 else -x,
             "Less": lambda a, b: Jet.of(a).c[0] < Jet.of(b).c[0], "If": lambda c, a, b: a if c else b, "time": s.time, "der": lambda x: x.der() if isinstance(x, Jet) else [y.der() for y in x]}
        for n in s.order: d[n] = [s.val[n, k] for k in range(s.sh[n])] if s.sh[n] else s.val[n]
        return d
    def ev(s, text): return eval(text, s.space())
    def closed(s, text):
        """text minus what it amounts to at the solution: 0 there"""
        j = Jet.of(s.ev(text))
        if not s.dae: return "%s-(%r)" % (text, float(j.c[0]))
        # a polynomial in (time-t0) given by its coefficients in time
        p = np.poly1d([0.]); base = np.poly1d([1., -s.time.c[0]])
        for k in range(ORDER): p = p + float(j.c[k]) * base ** k
        return text + "".join("-(%r)%s" % (float(c), "*time" * k) for k, c in enumerate(p.coeffs[::-1]) if c)

def gen_index1(rng):
    s = Sys(rng, False); s.time = Jet.of(round(rng.uniform(0, 2), 2))
    xs = [s.fresh("st", rng.choice([0, 0, 0, 2])) for _ in range(rng.randint(1, 3))]
    know = xs + [s.fresh("par") for _ in range(rng.randint(0, 2))] + [s.fresh("in") for _ in range(rng.randint(0, 1))]
    want_none = rng.random() < .6
    s.form = "none" if want_none else "list"
    for _ in range(rng.randint(1, 4)):
        kr = s.refs(know); k = rng.random()
        if k < .35:                                                 # an ordinary definition
            n = rng.choice([0, 0, 2]); v = s.fresh("var", n)
            if n: text = "Matrix([%s])" % ",".join(s.known(kr) for _ in range(n))
            else: text = s.known(kr)
            value = s.evm(text) if n else s.ev(text)
            for i in range(n or 1): s.val[(v, i) if n else v] = Jet.of(value[i] if n else value)
            s.eqs.append((v, text, "explicit")); know.append(v); continue
        m = rng.randint(1, 3)
        vec = rng.random() < .3 and not (want_none and rng.random() < .5)
        us = [s.fresh("var", m if m > 1 else 2)] if vec else [s.fresh("var") for _ in range(m)]
        ur = s.refs(us); m = len(ur)
        res = []
        for i, u in enumerate(ur):
            others = [x for x in ur if x != u]; a = repr(rng.choice([-1, 1]) * round(rng.uniform(1.2, 3), 3))
            lead = rng.choice(["%s*%s", "%s*%s", "%s*(%s+0.2*sin(%s))", "%s*%s*(1.5+0.4*cos(" + rng.choice(kr) + "))"])
            text = lead % ((a, u, u) if lead.count("%s") == 3 else (a, u))
            k = rng.random()                         # the unknown where its derivative does not show it
            if k < .06: text += "+%r*sign(%s)" % (s.num(), u)
            elif k < .12: text += "+%r*abs(%s)" % (rng.uniform(-.8, .8), u)
            elif k < .18: text = "If(Less(%s,%r),%s+%r,%s+%r)" % (u, s.num(), text, s.num(), text, s.num())
            if others and rng.random() < .8: text += "+" + "+".join("%r*%s" % (rng.uniform(-.25, .25), rng.choice(["%s", "sin(%s)", "%s"]) % o) for o in rng.sample(others, rng.randint(1, len(others))))
            text += "+" + s.known(kr)
            res.append(s.closed(text))
        order = list(range(m)); rng.shuffle(order)
        if vec:
            text = "Matrix([%s])" % ",".join(res[i] for i in order)
            s.eqs.append((us[0] if not want_none else None, text, "list1" if not want_none else "none"))
        elif want_none:
            for i in order: s.eqs.append((None, res[i], "none"))
        else: s.eqs.append((us, [res[i] for i in order], "list"))
        know += us
    kr = s.refs(know)
    for x in xs:
        k = rng.random()
        if not s.sh[x] and k < .35:
            # der(x) itself is given implicitly
            text = s.closed2("(%r+0.3*cos(%s))*der(%s)+%s" % (rng.choice([-1, 1]) * 2., rng.choice(kr), x, s.known(kr)))
            s.eqs.append((None, text, "none") if want_none else ([("der", x)], [text], "list"))
        elif s.sh[x]: s.eqs.append((("der", x), "Matrix([%s])" % ",".join(s.known(kr) for _ in range(s.sh[x])), "explicit"))
        else: s.eqs.append((("der", x), s.known(kr), "explicit"))
    for _ in range(rng.randint(0, 2)):
        w = s.fresh("sen"); s.eqs.append((w, s.known(kr), "explicit")); s.val[w] = Jet.of(s.ev(s.eqs[-1][1]))
    # the derivatives of the states follow
    for lhs, text, form in s.eqs:
        if isinstance(lhs, tuple) and form == "explicit":
            x = lhs[1]; v = s.evm(text) if s.sh[x] else [s.ev(text)]
            for i, y in enumerate(v):
                c = s.val[(x, i) if s.sh[x] else x].c; c[1] = Jet.of(y).c[0]
    return s

def evm(s, text):
    d = s.space(); d["Matrix"] = lambda v: v
    return eval(text, d)
Sys.evm = evm

def closed2(s, text):
    """a residual with der(x): its value at the solution depends on the derivative chosen for x"""
    x = re.search(r"der\((\w+)\)", text).group(1)
    s.val[x].c[1] = s.rng.uniform(-1.5, 1.5)
    return "%s-(%r)" % (text, float(s.ev(text).c[0]))
Sys.closed2 = closed2

def build(s, rng, opt):
    g = Graph(); lib = {"sin": S.sin, "cos": S.cos, "sign": S.sign, "abs": abs, "If": S.If, "Less": S.Less, "der": S.der, "Matrix": S.Matrix, "time": g.getVariable("time")}
    K = {"st": VarKind.Variable, "par": VarKind.Parameter, "in": VarKind.Input, "var": VarKind.Variable, "sen": VarKind.Sensor}
    names = list(s.order); rng.shuffle(names)
    for n in names:
        lib[n] = g.addVariable(n, (s.sh[n],) if s.sh[n] else (), K[s.kind[n]])
    for n in s.order:
        if s.kind[n] == "par": g.addEquation(lib[n], float(s.val[n].c[0]))
    eqs = list(s.eqs); rng.shuffle(eqs)
    L = lambda x: S.der(lib[x[1]]) if isinstance(x, tuple) else lib[x]
    def R(t):
        r = eval(t, lib)
        return S.Number(r) if isinstance(r, (int, float)) else r
    for lhs, text, form in eqs:
        if form == "explicit": g.addEquation(L(lhs), R(text))
        elif form == "none": g.addEquation(None, R(text), implicit=True)
        elif form == "list1": g.addEquation(L(lhs), R(text), implicit=True)
        else: g.addEquation([L(x) for x in lhs], [R(t) for t in text], implicit=True)
    g.buildGraph(opt)
    return g

# ------------------------------------------------------------------------------------------------ monitors
NAME = re.compile(r"[A-Za-z_]\w*")
def plain(t): return t.replace("$", "D_")

class Use(ast.NodeVisitor):
    """the scalars a printed expression uses"""
    def __init__(s, size): s.size, s.found = size, set()
    def visit_Call(s, n):
        for a in n.args: s.visit(a)
        if isinstance(n.func, ast.Attribute): s.visit(n.func.value)
    def visit_Attribute(s, n): s.visit(n.value)
    def visit_Subscript(s, n):
        if isinstance(n.value, ast.Name) and n.value.id in s.size:
            try: i = ast.literal_eval(n.slice)
            except ValueError: return s.generic_visit(n)
            s.found.add((n.value.id, i[0] if isinstance(i, tuple) else i)); return
        s.generic_visit(n)
    def visit_Name(s, n):
        if n.id in s.size:
            for k in range(s.size[n.id] or 1): s.found.add((n.id, k))
        elif n.id not in NS and n.id not in ("float", "solve", "inv"): s.found.add((n.id, 0))

def uses(text, size):
    u = Use(size)
    try: u.visit(ast.parse(text, mode="eval"))
    except SyntaxError: raise Fail("unreadable", text[:40], text)
    return u.found

def world(s):
    """values and sizes of every symbol there may be, derivatives included"""
    val, size = {}, {}
    for n in s.order:
        size[n] = s.sh[n]
        for k in range(s.sh[n] or 1):
            j = s.val[(n, k) if s.sh[n] else n]
            val[n, k] = j.c[0]
            for d, p in enumerate(("der_", "D_DER"), 1): val[p + n, k] = j.d(1); size[p + n] = s.sh[n]
            if s.dae:
                for p in ("D_DERD_DER", "der_D_DER"): val[p + n, k] = j.d(2); size[p + n] = s.sh[n]
    val["time", 0] = s.time.c[0]; size["time"] = 0
    return val, size

def scalars(text, val, size):
    env = dict(NS, float=float)
    for n in size: env[n] = np.matrix([[val[n, k]] for k in range(size[n])]) if size[n] else val[n, 0]
    return np.ravel(np.array(eval(compile(text, "e", "eval"), env), dtype=float))

def blocks(ass):
    for a in ass:
        l, r = (a.lhs, a.rhs) if isinstance(a.lhs, list) else ([a.lhs], [a.rhs])
        yield [(plain(str(x)), plain(str(y))) for x, y in zip(l, r)]

def same(a): return a.replace("D_DER", "der_", 1) if a.startswith("D_DER") else a

def canon(u, s):
    """der(x) and the symbol that stands for it are one unknown"""
    n, k = u
    if n.startswith("der_") and n[4:] in s.sh: n = "D_DER" + n[4:]
    return n, k

def irreducible(out, b, new, s, size, val, what, text):
    """no part of the block can be solved before the rest (equations entered together as one block stay together)"""
    rows = []
    for l, r in b:
        u = {canon(x, s) for x in uses(l, size) | uses(r, size)} & set(new)
        rows += [u] * max(len(scalars(l, val, size)), len(scalars(r, val, size)))
    M = {}                                               # unknown -> equation
    def match(i, seen):
        for u in sorted(rows[i]):
            if u not in seen:
                seen.add(u)
                if u not in M or match(M[u], seen): M[u] = i; return True
        return False
    if not all([match(i, set()) for i in range(len(rows))]): raise Fail("undetermined", what, "no assignment of the equations to %s: %s" % (new, text))
    def reach(nexts):
        seen = {new[0]}; todo = [new[0]]
        while todo:
            for v in nexts[todo.pop()]:
                if v not in seen: seen.add(v); todo.append(v)
        return seen
    fwd = {u: rows[M[u]] for u in new}; bwd = {u: [v for v in new if u in fwd[v]] for u in new}
    if len(reach(fwd)) < len(new) or len(reach(bwd)) < len(new): raise Fail("reducible", what, "a part of %s can be solved on its own: %s" % (new, text))
    out.inc("irreducible_blocks")

def monitor(out, s, ass, need, what):
    val, size = world(s)
    known = {(n, k) for n in s.order if s.kind[n] in ("st", "par", "in") for k in range(s.sh[n] or 1)} | {("time", 0)}
    known -= s.dummies(ass) if s.dae else set()
    nb = 0
    for b in blocks(ass):
        text = "; ".join("%s = %s" % x for x in b)
        if len(b) == 1 and NAME.fullmatch(b[0][0]) and b[0][0] not in size:      # a variable introduced by the optimisation
            l, r = b[0]; u = uses(r, size)
            if not {canon(x, s) for x in u} <= known: raise Fail("used-before-definition", what, text)
            v = scalars(r, val, size)
            if len(v) != 1: raise Fail("shape", what, text)
            val[l, 0], size[l] = float(v[0]), 0; known.add((l, 0)); out.inc("introduced"); continue
        for _ in b:                                                             # ... inside an algebraic loop
            for l, r in b:
                if NAME.fullmatch(l) and l not in size and all(x in val for x in uses(r, size)): val[l, 0], size[l] = float(scalars(r, val, size)[0]), 0
        used = set().union(*[uses(l, size) | uses(r, size) for l, r in b])
        un = [u for u in used if u not in val]
        if un: raise Fail("unknown-name", what, "%s in %s" % (un, text))
        new = sorted({canon(u, s) for u in used} - known)
        F = lambda v: np.concatenate([scalars(l, v, size) - scalars(r, v, size) if True else 0 for l, r in b])
        with np.errstate(all="ignore"): f0 = F(val)
        scale = 1 + max(np.max(np.abs(scalars(t, val, size)), initial=0) for x in b for t in x)
        if not np.all(np.abs(f0) <= 1e-7 * scale): raise Fail("value", what, "does not hold (%s): %s" % (f0.tolist(), text))
        out.inc("comparisons", len(f0))
        if len(f0) != len(new): raise Fail("count", what, "%d equations for the new unknowns %s: %s" % (len(f0), new, text))
        # explicit: the target is new and not used on the right
        if len(b) == 1 and not re.fullmatch(r"0|[\[\(, 0\])]*|zeros\(.*\)|matrix\(zeros.*", b[0][0]):
            t = {canon(u, s) for u in uses(b[0][0], size)}
            if t & known: raise Fail("assigned-twice", what, text)
            if t & {canon(u, s) for u in uses(b[0][1], size)}: raise Fail("used-before-definition", what, text)
        J = np.zeros((len(f0), len(new)))
        for j, (n, k) in enumerate(new):
            d = []
            for h in (1e-6, -1e-6):
                v = dict(val)
                for m in {n, "der_" + n[5:] if n.startswith("D_DER") else n}: v[m, k] = val[m, k] + h if (m, k) in val else None
                with np.errstate(all="ignore"): d.append(F(v))
            J[:, j] = (d[0] - d[1]) / 2e-6
        sv = np.linalg.svd(J / np.maximum(np.abs(J).max(1, keepdims=True), 1e-9), compute_uv=False)
        if not s.dae and not sv[-1] > 1e-5: raise Fail("undetermined", what, "%s by %s (singular values %s)" % (new, text, sv))
        if len(new) > 1 and s.form == "none": irreducible(out, b, new, s, size, val, what, text)
        known |= set(new); nb += 1
        out.group("block_size", str(len(new)))
    miss = [u for u in need if u not in known]
    if miss: raise Fail("not-defined", what, str(miss))
    return nb

def check_code(out, s, g):
    """what the writers make of it: a solution in Modelica; the others refuse what they cannot sort"""
    from writerw import Quiet
    val, size = world(s)
    loops = any(len(b) > 1 or re.match(r"0$|zeros|matrix\(zeros", b[0][0]) for b in blocks(g.getAssignments(VarKind.Der_State)))
    if any(s.kind[n] == "sen" for n in s.order): loops = loops or any(len(b) > 1 or re.match(r"0$|zeros|matrix\(zeros", b[0][0]) for b in blocks(g.getAssignments(VarKind.Sensor)))
    for lang in s.rng.sample(["py", "c", "f90", "m"], 2):
        name = "imp_" + lang; error = None
        with Quiet():
            try: g.writeCode(lang, name, ".")
            except CS.Error as e: error = str(e)
        if loops:
            if error is None:
                text = "\n".join(open(f, encoding="latin-1").read() for f in sorted(os.listdir(".")) if f.startswith(name) and "function" not in f)
                raise Fail("written", lang, "equations that have to be solved together are written as a sequence\n" + text[:2500])
            out.inc("refused_by_writer")
        elif error:
            if not re.search("mplicit equations|lhs expression \"0\" is neither", error) or lang == "py": raise Fail("writer", lang, error)
            out.inc("refused_by_writer")           # C and Fortran sort a scalar copy of the system
        elif lang == "c": c_check(out, s, name, val)
        elif lang == "py":
            sp = {}; src = open(name + "_der_state.py", encoding="latin-1").read()
            import importlib; sys.path.insert(0, os.getcwd()); importlib.invalidate_caches()
            try:
                exec(compile(src, name, "exec"), sp)
                u = {n: float(s.val[n].c[0]) for n in s.order if s.kind[n] == "in"}
                if name + "_setInputs" in sp: sp[name + "_setInputs"](u)         # absent if no input is used
                st = states(s)
                y = np.concatenate([[val[n, k] for k in range(s.sh[n] or 1)] for n in st])
                yd = sp[name + "_der_state"](val["time", 0], y)
            finally: sys.path.pop(0); sys.modules.pop(name + "_sensors", None)
            w = np.concatenate([[val["der_" + n, k] for k in range(s.sh[n] or 1)] for n in st])
            if not np.all(np.abs(yd - w) <= 1e-7 * (1 + np.abs(w))): raise Fail("value", "python", "%s instead of %s (states %s)\n%s" % (yd, w, st, src))
            out.inc("python_runs")
    name = "imp_mo"
    with Quiet(): g.writeCode("mo", name, ".")
    modelica_check(out, s, open(name + ".mo", encoding="latin-1").read(), val)

def states(s): return sorted((n for n in s.order if s.kind[n] == "st"), key=lambda n: (s.sh[n] or 1, n))

LIB = 0
def c_check(out, s, name, val):
    import ctypes, subprocess
    global LIB
    LIB += 1; lib = os.path.abspath("%s_%d.so" % (name, LIB))          # a path of its own, dlopen would find the previous one
    r = subprocess.run(["gcc", "-std=gnu99", "-w", "-O0", "-shared", "-fPIC", "-D__declspec(x)=", "-o", lib, name + "_der_state.c", "-lm"], capture_output=True, text=True)
    if r.returncode: raise Fail("no-c", "compiler", r.stderr[:1500])
    f = getattr(ctypes.CDLL(lib), name + "_der_state"); D = ctypes.c_double
    y = [val[n, k] for n in states(s) for k in range(s.sh[n] or 1)]; w = [val["der_" + n, k] for n in states(s) for k in range(s.sh[n] or 1)]
    yd = (D * len(y))(*[float("nan")] * len(y))
    f(D(val["time", 0]), (D * len(y))(*y), yd, *[D(val[n, 0]) for n in sorted(s.order) if s.kind[n] == "in"])
    if not np.all(np.abs(np.array(yd) - w) <= 1e-7 * (1 + np.abs(w))): raise Fail("value", "c", "%s instead of %s\n%s" % (list(yd), w, open(name + "_der_state.c", encoding="latin-1").read()[:2500]))
    os.remove(lib); out.inc("c_runs")

def modelica_check(out, s, text, val):
    try:
        m = modelica.Model(text); env = dict(m.bindings()); env["time"] = val["time", 0]
        names = dict(m.decl)
        for n, d in names.items():
            k = plain(n)
            if n in env: continue
            if (k, 0) not in val: continue
            for key, src in ((n, k), (("der", n), "der_" + k)):
                if (src, 0) in val: env[key] = float(val[src, 0]) if not d.sh else np.array([val[src, i] for i in range(int(np.prod(d.sh)))]).reshape(d.sh)
        for _ in range(4):                       # variables introduced by the optimisation
            for l, r in m.eqs:
                if l[0] == "id" and l[1] not in env and l[1] in m.decl:
                    try: env[l[1]] = m.ev(r, env)
                    except modelica.Unknown: pass
        size = 0
        for d, scale, e in m.residuals(env):
            size += len(d); out.inc("comparisons", len(d))
            if not np.all(np.abs(d) <= 1e-7 * scale): raise Fail("value", "modelica", "%s: %s\n%s" % (d, e, text))
        want = sum(int(np.prod(d.sh)) for d in m.unknowns().values())
        if size != want: raise Fail("count", "modelica", "%d equations for %d unknowns\n%s" % (size, want, text))
    except (modelica.Error, modelica.Unknown) as e: raise Fail("modelica", re.sub(r"\d+", "", str(e))[:60], "%r\n%s" % (e, text))
    out.inc("modelica_models")

def case_index1(out, rng, idx, tier):
    s = gen_index1(rng); opt = rng.random() < .5
    try: g = build(s, rng, opt)
    except CS.Error as e: raise Fail("refused", re.sub(r"\d+", "", str(e))[:80], "%s\n%s" % (e, "\n".join(map(str, s.eqs))))
    ders = [("D_DER" + x, k) for x in s.order if s.kind[x] == "st" for k in range(s.sh[x] or 1)]
    sens = [(x, 0) for x in s.order if s.kind[x] == "sen"]
    try:
        nb = monitor(out, s, g.getAssignments(VarKind.Der_State), ders, "der")
        if sens: monitor(out, s, g.getAssignments(VarKind.Sensor), sens, "sen")
        check_code(out, s, g)
    except Fail as e: e.detail += "\n" + "\n".join(map(str, s.eqs)); raise
    out.group("form", s.form); out.inc("systems"); out.inc("blocks", nb)
    if any(f != "explicit" for l, t, f in s.eqs): out.inc("distinct")
    out.sample({"equations": [str(x) for x in s.eqs], "blocks": list(blocks(g.getAssignments(VarKind.Der_State)))[:8]})

MODES = {"index1": case_index1}
if __name__ == "__main__": run("implicit " + sys.argv[1], MODES[sys.argv[1]], sys.argv[2:])
