"""Worker for parameters, initial values and the order of the states: paramw.py MODE SEED START COUNT PROGRESS TIER, MODE = graph|mbs

Numbers with all the digits of a double are entered as parameters, constants, components of vectors and start values; the generated
programs are run (Python, C, Fortran) or their text is read (MATLAB, Modelica, C#), and the numbers found are compared exactly."""
import os, re, sys, math, struct, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import graphw, writerw, gprog
from writerw import Quiet, Gp, col
from worker import run, Fail
import pymbs.symbolics as S
from pymbs.symbolics import VarKind

RUN = {"py": writerw.Py, "c": writerw.C, "f90": writerw.F90}
TEXT = ("m", "mo", "cs")
SPECIAL = [0.1 + 0.2, 1 / 3, 2 / 3, 1e22, -1e22, 1e23, 123456789012345678, 2**31, 2**31 - 1, -2**31, -2**31 - 1, 2**53 + 1, 2**63, 10**20, 1.7976931348623157e308, 2.2250738585072014e-308,
           123456.789, 1e-5, 1e5, 1e6, 1e15, 1e16, 999999999999999.9, 0.1, -0.1, 3.0, 1, -1, 0.5, 7, 1e15 + 0.3, math.pi, -math.e, 100, 1e-7, 9.81, 4.35, 0.29, 1.1, 1.0000000000000002, 0.9999999999999999]

def number(rng, exact=True, mild=False):
    """a number as a user may enter it; mild: suitable for being calculated with"""
    if mild:
        x = round(rng.uniform(.2, 3), rng.choice([1, 2, 16])) * rng.choice([1, 1, -1]) or .5
        return x if rng.random() < .85 else rng.choice([1, 2, 3, -2])
    r = rng.random()
    if r < .4: return rng.choice(SPECIAL)
    if r < .6:
        while True:
            x = struct.unpack("<d", struct.pack("<Q", rng.getrandbits(64)))[0]
            if math.isfinite(x) and abs(x) > 1e-305: return x
    if r < .75: return round(rng.uniform(-1e3, 1e3), rng.randint(0, 6))
    if r < .9: return rng.uniform(-10, 10) * 10.0 ** rng.randint(-12, 12)
    return rng.randint(-2**40, 2**40)

LET = ["a", "b", "m", "x", "k", "Z", "c_", "p", "l0", "mass", "zeta", "A1", "w", "_r", "alpha", "J", "n2", "B", "d", "u1"]
def names(rng, n, used):
    out = []
    while len(out) < n:
        s = rng.choice(LET) + (rng.choice(["", "", str(rng.randint(0, 12)), "_" + rng.choice("abxyz")]))
        s = s.lstrip("_")
        if s.lower() in used: continue
        used.add(s.lower()); out.append(s)
    return out

def lib_num(x): return S.Number(x)
def lib_val(v, sh):
    """the library's object for an array of numbers"""
    if sh == (): return lib_num(v[0])
    if len(sh) == 1: return S.Matrix(list(v))
    return S.Matrix([list(v[i * sh[1]:(i + 1) * sh[1]]) for i in range(sh[0])])
def arr(v, sh): return np.array([float(x) for x in v]).reshape((1, 1) if sh == () else (sh[0], 1) if len(sh) == 1 else sh)

# formulas of parameters: nested tuples, with their value
def formula(rng, known, depth=2):
    """(library expression maker, value) over the names in known (name -> float)"""
    if depth == 0 or rng.random() < .25:
        if known and rng.random() < .8:
            n = rng.choice(sorted(known)); return (lambda e: e[n]), known[n], {n}
        x = rng.choice([2, 3, .5, 1.25, .3]); return (lambda e: x), x, set()
    k = rng.choice(["add", "mul", "sub", "div", "sin", "exp2", "neg", "atan"])
    f, a, d = formula(rng, known, depth - 1)
    if k == "sin": return (lambda e: S.sin(f(e)) if isinstance(f(e), S.Basic) else math.sin(f(e))), math.sin(a), d
    if k == "neg": return (lambda e: -f(e)), -a, d
    if k == "atan":
        c = .37
        return (lambda e: S.cos(c * f(e)) if isinstance(f(e), S.Basic) else math.cos(c * f(e))), math.cos(c * a), d
    if k == "exp2": return (lambda e: f(e) ** 2), a ** 2, d
    h, b, d2 = formula(rng, known, depth - 1)
    if k == "div":
        if abs(b) < .05: k = "mul"
        else: return (lambda e: f(e) / h(e)), a / b, d | d2
    if k == "add": return (lambda e: f(e) + h(e)), a + b, d | d2
    if k == "sub": return (lambda e: f(e) - h(e)), a - b, d | d2
    return (lambda e: f(e) * h(e)), a * b, d | d2

def libval(b): return graphw.val(eval(str(b), dict(graphw.NS)))

def same(got, exp, tol=0.0):
    if got.shape != exp.shape: return False
    return np.array_equal(got, exp) if not tol else bool(np.all(np.abs(got - exp) <= tol * (1 + np.abs(exp))))

# ---------------------------------------------------------------------------------------------- reading program text
def py_expr(s):
    s = s.replace("Math.", "").replace("Sin", "sin").replace("Cos", "cos").replace("Pow", "pow").replace("Abs", "abs").replace("^", "**")
    return s
FUN = {"sin": math.sin, "cos": math.cos, "pow": math.pow, "abs": abs, "sqrt": math.sqrt, "tan": math.tan}
def number_of(s, env, where):
    try: return float(eval(py_expr(s), {"__builtins__": {}}, dict(FUN, **env)))
    except NameError as e: raise Fail("order", where, "%s in %s" % (e, s))
    except Exception as e: raise Fail("unreadable", where, "%s: %s" % (e, s))
def values(s, env, where):
    """{{1,2},{3,4}} (rows) or [1,2;3,4] or a number"""
    s = s.strip()
    if s.startswith("{"):
        rows = re.findall(r"\{([^{}]*)\}", s)
        return np.array([[number_of(x, env, where) for x in r.split(",")] for r in rows])
    if s.startswith("["):
        return np.array([[number_of(x, env, where) for x in r.split(",")] for r in s.strip("[]").split(";")])
    return np.array([[number_of(s, env, where)]])

def read_text(d, typ, name):
    f = {"m": name + "_der_state.m", "mo": name + ".mo", "cs": name + "_der_state.cs"}[typ]
    return open("%s/%s" % (d, f), errors="replace").read()

def check_text(out, d, typ, name, P):
    t = read_text(d, typ, name)
    env = {}
    pat = {"m": r"^\s+(\w+) = (.*?);(?:  %.*)?$", "mo": r"^\s+(?:parameter|constant) Real(?:\[[\d,]+\])? (\w+) = (.*?)(?: \".*\")?;$", "cs": r"^\s+double (\w+) = (.*?);(?:  /\*.*)?$"}[typ]
    defs = re.findall(pat, t, re.M)
    if typ == "mo":                                   # a set of equations: any order will do
        todo, k = list(defs), 0
        while todo and k <= len(defs):
            left = []
            for n, s in todo:
                if n in P.exp:
                    try: env[n] = values(s, env, "parameter " + typ); env[n] = env[n] if env[n].size > 1 else float(env[n][0, 0])
                    except Fail as e:
                        if e.kind != "order": raise
                        left.append((n, s))
            todo = left; k += 1
        if todo: raise Fail("order", "parameter mo", "never computed: %s" % todo)
    else:
        for n, s in defs:
            if n in P.exp and n not in env:
                v = values(s, env, "parameter " + typ); env[n] = v if v.size > 1 else float(v[0, 0])
    for n in P.pars:
        if n not in env:
            if re.search(r"\b%s\b" % n, re.sub(r'".*"|%.*', '', t)): raise Fail("missing", "parameter " + typ, "%s\n%s" % (n, t[:3000]))
            continue
        check_value(out, n, np.asarray(env[n]).reshape(P.exp[n].shape) if np.size(env[n]) == P.exp[n].size else np.asarray(env[n]), P, typ, t)
    # start values and the order of the states
    if typ == "mo":
        for n in P.sts:
            m = re.search(r"^   Real(?:\[([\d,]+)\])? %s\(start=(.*?), each stateSelect" % n, t, re.M)
            if not m: raise Fail("missing", "start mo", "%s\n%s" % (n, t[:2000]))
            v = values(m.group(2), {}, "start")
            if not same(v, P.init[n]): raise Fail("start", "mo", "%s starts at %s, entered %s" % (n, m.group(2), P.init[n].tolist()))
            out.inc("start values")
    if typ == "m":
        y, k = re.findall(r"^\t(\w+) = y\((\d+):(\d+)\);", t, re.M), 1
        for n, a, b in y:
            if int(a) != k: raise Fail("order", "m", "%s" % y)
            k = int(b) + 1
        if [n for n, a, b in y] != P.order: raise Fail("order", "m states", "%s, expected %s" % (y, P.order))
        m = re.search(r"yd = \[(.*?)\];", t)
        if [x.strip() for x in m.group(1).split(";")] != ["der_" + n for n in P.order]: raise Fail("order", "m derivative", m.group(0))
        sim = open("%s/%s_sim.m" % (d, name)).read()
        for n in P.sts:
            m = re.search(r"^   %s0 = (.*?); *(?:%%.*)?$" % n, sim, re.M)
            if not m: raise Fail("missing", "start m", n + sim[:2000])
            v = values(m.group(1), {}, "start")
            if not same(v, P.init[n]): raise Fail("start", "m", "%s starts at %s, entered %s" % (n, m.group(1), P.init[n].tolist()))
            out.inc("start values")
        m = re.search(r"^y0 = \[(.*?)\];", sim, re.M)
        if [x.strip() for x in m.group(1).split(";")] != [n + "0" for n in P.order]: raise Fail("order", "m start", m.group(0))
    if typ == "cs":
        y = re.findall(r"^    double (\w+) = y\[(\d+)\];", t, re.M)
        if [n for n, i in y] != P.order or [int(i) for n, i in y] != list(range(len(y))): raise Fail("order", "cs states", "%s" % y)
        y = re.findall(r"^    yd\[(\d+)\] = (\w+);", t, re.M)
        if [n for i, n in y] != ["der_" + n for n in P.order] or [int(i) for i, n in y] != list(range(len(y))): raise Fail("order", "cs derivative", "%s" % y)
    out.inc("state orders")

def check_value(out, n, v, P, typ, src):
    if not same(np.asarray(v, float), P.exp[n], P.tol.get(n, 0.0)):
        raise Fail("value", typ, "%s = %s, entered %s\n%s" % (n, [repr(float(x)) for x in np.ravel(v)], [repr(float(x)) for x in P.exp[n].ravel()], src))
    out.inc("comparisons"); out.group("values", ("formula" if n in P.tol else "number" if P.exp[n].size == 1 else "array") + " " + typ)

# ------------------------------------------------------------------------------------------------------------- graphs
def graph_case(out, rng, idx, tier):
    typ = rng.choice(["py", "c", "f90", "m", "mo", "cs"])
    flat_only = typ in ("c", "cs", "m", "mo")         # these languages take parameters as scalars (mbs vectors are entered as scalars too)
    used = {"time", "y", "yd", "e", "d", "i", "n"}
    npar = rng.randint(2, 8); P = Gp()
    P.pars = names(rng, npar, used); P.exp, P.tol, P.init, P.sts = {}, {}, {}, []
    defs, mild = {}, {}
    for n in P.pars:
        r = rng.random()
        if r < .35 and mild:
            f, v, deps = formula(rng, mild)
            if not (math.isfinite(v) and 1e-2 < abs(v) < 1e3): r = 1
            else:
                P.exp[n] = col(v); P.tol[n] = 1e-12; mild[n] = v; defs[n] = ((), f, VarKind.Parameter); continue
        if r < .5 and not flat_only:
            sh = rng.choice([(3,), (2,), (3, 3), (2, 3)]); k = int(np.prod(sh))
            v = [number(rng) for _ in range(k)]
            P.exp[n] = arr(v, sh); defs[n] = (sh, (lambda e, v=v, sh=sh: lib_val(v, sh)), VarKind.Parameter); continue
        if rng.random() < .45:
            x = number(rng, mild=True); mild[n] = float(x)
        else: x = number(rng)
        P.exp[n] = arr([x], ()); defs[n] = ((), (lambda e, x=x: lib_num(x)), rng.choice([VarKind.Parameter, VarKind.Parameter, VarKind.Constant]))
    for n in names(rng, rng.randint(1, 5), used):
        sh = rng.choice([(), (), (2,), (3,)]) if typ != "cs" else ()
        v = [number(rng) for _ in range(int(np.prod(sh)))]
        P.sts.append(n); P.init[n] = arr(v, sh)
        defs[n] = (sh, v, VarKind.State)
    P.shape = {n: P.init[n].shape if n in P.init else P.exp[n].shape for n in defs}
    g = S.Graph(); sym = {}
    order = list(defs); rng.shuffle(order)
    for n in order:
        sh, v, kind = defs[n]
        sym[n] = g.addVariable(n, sh, kind, lib_val(v, sh) if kind == VarKind.State else 0 if sh == () else S.zeros(sh), rng.choice(["", "comment"])) if kind == VarKind.State else g.addVariable(n, sh, kind)
    rng.shuffle(order)
    fac = {}
    scal = [n for n in P.pars if defs[n][0] == ()]
    P.used = set()
    sens = {}
    todo = [(n, "def") for n in order] + ([("s_%d" % k, n) for k, n in enumerate(P.pars)] if typ in RUN else [])
    rng.shuffle(todo)
    for n, what in todo:
        if what != "def":
            g.addEquation(n, sym[what], VarKind.Sensor); sens[n] = what; continue
        sh, v, kind = defs[n]
        if kind != VarKind.State: g.addEquation(sym[n], v(sym)); continue
        fac[n] = 2.0 ** rng.randint(-3, 3)
        rhs = sym[n] * fac[n]
        if typ in TEXT and scal and sh == ():         # so that the parameters are used
            p = rng.choice(scal); P.used.add(p); rhs = rhs + sym[p]
        g.addEquation(S.der(sym[n]), rhs)
    opt = rng.random() < .5
    P.order = writerw.lib_order(P.sts, P.shape)
    with Quiet():
        g.buildGraph(opt)
    for n in P.sts:
        v = libval(g.getinitVal(sym[n]))
        if not same(v, P.init[n]): raise Fail("start", "getinitVal", "%s: %s, entered %s" % (n, v.tolist(), P.init[n].tolist()))
        out.inc("start values")
    got = [str(x) for x in g.getVariables(VarKind.State)]
    if sorted(got) != sorted(P.sts): raise Fail("states", "getVariables", "%s, entered %s" % (got, P.sts))
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        with Quiet() as q: g.writeCode(typ, "mdl", d)
        if "rror" in q.text: raise Fail("error-reported", re.sub(r"\d+", "", q.text.split("rror", 1)[1][:60]), q.text)
        if typ in TEXT: check_text(out, d, typ, "mdl", P)
        else:
            T = RUN[typ]()
            G = Gp(); G.P, G.order, G.sens, G.vis, G.inputs, G.ctl, G.shape = None, P.order, list(sens), [], [], [], dict(P.shape, **{s: P.exp[n].shape for s, n in sens.items()})
            T.load(d, "mdl", G)
            src = writerw.sources(d, T.files("mdl")[:2])
            env = {n: np.round(np.array([[rng.uniform(-4, 4)] for _ in range(P.shape[n][0])]), 3) for n in P.sts}; env["time"] = col(.5)
            yd = T.call(env, "der_state", P.order, True)
            for n in P.sts:
                if not same(yd["der_" + n], env[n] * fac[n]): raise Fail("state order", typ, "der_%s = %s, expected %s\n%s" % (n, yd["der_" + n].tolist(), (env[n] * fac[n]).tolist(), src))
                out.inc("comparisons")
            r = T.call(env, "sensors", P.order, True)
            for s, n in sens.items():
                if s not in r: raise Fail("not-delivered", typ, s)
                check_value(out, n, r[s], P, typ, src)
            out.inc("state orders")
    finally: shutil.rmtree(d, ignore_errors=True)
    if P.tol and len(P.sts) > 1: out.inc("distinct")
    out.group("target", typ); out.group("parameters", str(len(P.pars)))
    out.sample({"idx": idx, "target": typ, "parameters": {n: [repr(float(x)) for x in P.exp[n].ravel()] for n in P.pars}, "states": P.order})

# --------------------------------------------------------------------------------------------------------- mechanisms
DOFS = ["Tx", "Ty", "Tz", "Rx", "Ry", "Rz"]
def mbs_case(out, rng, idx, tier):
    """parameters, start positions and velocities entered through MbsSystem, and the order of the state vector"""
    from pymbs.input import MbsSystem
    import mechw
    used = {"time", "y", "yd", "g", "q", "qd", "e", "world", "der_q", "der_qd"}
    P = Gp(); P.exp, P.tol, mild = {}, {}, {}
    typ = rng.choice(["py", "py", "f90", "c", "m", "mo"])
    with Quiet():
        grav = rng.choice([None, number(rng, mild=True)])
        w = MbsSystem([0, 0, -1])
        sym = {}
        def add(n, default, **kw):
            return w.addParam(n, default, **kw)
        P.pars = []; comps = {}
        for n in names(rng, rng.randint(2, 6), used):
            r = rng.random()
            if r < .3 and mild:
                f, v, deps = formula(rng, mild)
                if math.isfinite(v) and 1e-2 < abs(v) < 1e3:
                    sym[n] = add(n, f(sym)); P.exp[n] = col(v); P.tol[n] = 1e-12; mild[n] = v; P.pars.append(n); continue
            if r < .6:
                k = rng.choice(["list3", "list6", "vec", "mat", "mat23", "col"])
                cnt = {"list3": 3, "list6": 6, "vec": 3, "mat": 9, "mat23": 6, "col": 3}[k]
                v = [number(rng) for _ in range(cnt)]
                suf = {3: ["x", "y", "z"], 6: ["xx", "xy", "yy", "xz", "yz", "zz"], 9: ["xx", "xy", "xz", "yx", "yy", "yz", "zx", "zy", "zz"]}[cnt]
                if k == "mat23": suf = ["__%d_%d" % (a, b) for a in range(2) for b in range(3)]
                if any(x.startswith(n.lower() + "_") for x in used): continue
                obj = {"list3": lambda: list(v), "list6": lambda: list(v), "vec": lambda: S.Matrix(list(v)), "mat": lambda: lib_val(v, (3, 3)), "mat23": lambda: lib_val(v, (2, 3)),
                       "col": lambda: lib_val(v, (3, 1))}[k]()
                if any(("%s_%s" % (n, s)).lower() in used for s in suf): continue
                try: ret = add(n, obj)
                except Exception as e: raise Fail("refused", "addParam %s %s" % (k, type(e).__name__), "%s" % e)
                if isinstance(obj, list) and obj != v: raise Fail("caller's list changed", "addParam", "%s %s" % (obj, v))
                want = arr([v[i] for i in (0, 1, 3, 1, 2, 4, 3, 4, 5)], (3, 3)) if k == "list6" else arr(v, {"mat": (3, 3), "mat23": (2, 3)}.get(k, (3,)))
                for s, x in zip(suf, v):
                    nm = "%s_%s" % (n, s); used.add(nm.lower()); P.pars.append(nm); P.exp[nm] = arr([x], ())
                comps[n] = (ret, want)
                continue
            x = number(rng, mild=rng.random() < .5)
            kw = {}
            if rng.random() < .3: kw = {"positive": True} if x > 0 else {"negative": True} if x < 0 else {}
            sym[n] = add(n, x, **kw); P.exp[n] = arr([x], ()); P.pars.append(n)
            if kw == {} and .1 < abs(x) < 4: mild[n] = float(x)
        # a chain or tree with start values
        nb = rng.randint(1, 3); bodies = [w]; joints = []; start = {}; startd = {}
        for k in range(nb):
            b = w.addBody(mass=1 + k, cg=[.1, .2, .3], inertia=S.Matrix([[1, 0, 0], [0, 2, 0], [0, 0, 3]]), name=rng.choice(["Arm", "b", "Z"]) + str(k))
            dofs = rng.sample(DOFS, rng.choice([0, 1, 1, 1, 2, 3] if k else [1, 1, 2, 3, 6]))
            if sum(1 for x in dofs) + len(start) > 6: dofs = dofs[:1]
            jn = rng.choice(["hinge", "a", "Zj", "j"]) + str(rng.choice([nb - k, k + 3]))
            while any(jn == j for j in joints): jn += "x"
            joints.append(jn)
            sv = [number(rng) for _ in dofs]; sd = [number(rng) for _ in dofs]
            ca = {}
            how = rng.random()
            if dofs and how < .8: ca["startVals"] = sv[0] if len(dofs) == 1 and rng.random() < .5 else list(sv)
            else: sv = [0] * len(dofs)
            if dofs and rng.random() < .8: ca["startVals_d"] = sd[0] if len(dofs) == 1 and rng.random() < .5 else list(sd)
            else: sd = [0] * len(dofs)
            lst = dofs[0] if len(dofs) == 1 and rng.random() < .4 else list(dofs)
            w.addJoint(rng.choice(bodies), b, lst, name=jn, **ca)
            if isinstance(lst, list) and lst != dofs: raise Fail("caller's list changed", "addJoint dofList", "%s, was %s" % (lst, dofs))
            if isinstance(ca.get("startVals"), list) and ca["startVals"] != sv: raise Fail("caller's list changed", "startVals", str(ca))
            bodies.append(b)
            for x, a, c in zip(dofs, sv, sd):
                s = "q_%s" % (jn if len(dofs) == 1 else jn + "_" + x)
                for cand in ("q_%s" % jn, "q_%s_%s" % (jn, x)): start[cand if len(dofs) == 1 else "q_%s_%s" % (jn, x)] = float(a); startd[cand if len(dofs) == 1 else "q_%s_%s" % (jn, x)] = float(c)
        ndof = sum(1 for _ in set())
        sens = {}
        for k, n in enumerate(P.pars):
            s = "s_%d" % k
            w.addExpression(s, w.graph.getVariable(n) * 1, category=VarKind.Sensor) ; sens[s] = n
        gd = w.getParameters()
        gen = rng.choice(["Explicit", "Recursive", "OrderN"])
        try: getattr(w.genEquations, gen)()
        except Exception as e: raise Fail("refused", "genEquations %s %s" % (gen, type(e).__name__), "%s" % e)
    q = [str(x) for x in w.state.q]
    P.order = ["q", "qd"]
    expq, expqd = [], []
    for s in q:
        if s not in start: raise Fail("states", "unknown", "%s, joints %s" % (q, sorted(start)))
        expq.append(start[s]); expqd.append(startd[s])
    if len(set(q)) != len(q): raise Fail("states", "doubled", str(q))
    P.init = {"q": col(expq if len(expq) > 1 else expq[0]), "qd": col(expqd if len(expqd) > 1 else expqd[0])}; P.sts = ["q", "qd"]
    for n, e in P.init.items():
        v = libval(w.graph.getinitVal(w.graph.getVariable(n)))
        if not same(v, e): raise Fail("start", "joint", "%s starts at %s, entered %s for %s" % (n, v.tolist(), e.tolist(), q))
        out.inc("start values")
    for n in P.pars:
        d0 = gd.get(n)
        if n not in P.tol and (d0 is None or float(str(d0)) != P.exp[n][0, 0]): raise Fail("value", "getParameters", "%s = %s, entered %r" % (n, d0, P.exp[n][0, 0]))
    for n, (ret, want) in comps.items():
        env = {x: float(P.exp[x][0, 0]) for x in P.pars}
        v = np.array([[env[str(ret[i] if len(ret.shape()) == 1 else ret[i, j])] for j in range(want.shape[1])] for i in range(want.shape[0])])
        if not same(v, want): raise Fail("value", "addParam array", "%s stands for %s, entered %s" % (n, v.tolist(), want.tolist()))
        out.inc("comparisons")
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        with Quiet() as qt: getattr(w.genCode, {"py": "Python", "c": "C", "f90": "Fortran90", "m": "Matlab", "mo": "Modelica"}[typ])("mdl", d)
        if re.search("Error", qt.text): raise Fail("error-reported", re.sub(r"\d+", "", qt.text.split("Error", 1)[1][:60]), qt.text)
        P.used = set(); P.shape = {n: v.shape for n, v in P.init.items()}
        if typ in TEXT: check_text(out, d, typ, "mdl", P)
        else:
            T = RUN[typ](); G = Gp(); G.P, G.order, G.vis, G.inputs, G.ctl = None, P.order, [], [], []
            G.shape = dict(P.shape); L = Gp(); L.w = w
            G.sens = writerw.graph_vars(L, VarKind.Sensor, G.shape)
            if set(sens) - set(G.sens): raise Fail("not-delivered", "graph", str(set(sens) - set(G.sens)))
            try: T.load(d, "mdl", G)
            except writerw.TooLong: return
            src = writerw.sources(d, T.files("mdl")[:2])
            env = {n: np.array([[rng.uniform(-1, 1)] for _ in range(len(q))]) for n in P.order}; env["time"] = col(.5)
            yd = T.call(env, "der_state", P.order, True)
            if not same(yd["der_q"], env["qd"]): raise Fail("state order", typ, src)
            r = T.call(env, "sensors", P.order, True)
            for s, n in sens.items(): check_value(out, n, r[s], P, typ, src)
            out.inc("state orders")
    finally: shutil.rmtree(d, ignore_errors=True)
    if len(q) > 1 and len(P.pars) > 2: out.inc("distinct")
    out.group("target", "mbs " + typ); out.group("generator", gen); out.group("dofs", str(len(q)))
    out.sample({"idx": idx, "target": typ, "generator": gen, "states": q, "start": expq, "parameters": {n: repr(float(P.exp[n].ravel()[0])) for n in P.pars}})

if __name__ == "__main__":
    run("param " + sys.argv[1], {"graph": graph_case, "mbs": mbs_case}[sys.argv[1]], sys.argv[2:])
