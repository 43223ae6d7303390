"""Worker for the graph properties: graphw.py MODE SEED START COUNT PROGRESS TIER"""
import os, re, sys, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import gprog
from gprog import N
from worker import run, Fail, CaseTimeout
import pymbs.symbolics as S
from pymbs.symbolics import symbolics as CS
from pymbs.symbolics import Graph, VarKind

KIND = {"par": VarKind.Parameter, "con": VarKind.Constant, "in": VarKind.Input, "st": VarKind.Variable, "var": VarKind.Variable,
        "dst": VarKind.Der_State, "sen": VarKind.Sensor, "vis": VarKind.Graphics, "ctl": VarKind.Controller}

def initial(P, n, B):
    e = P.init.get(n)
    if e is None or P.vars[n][0] in ("par", "con"): return None
    if e.op == "num": return e.p
    return S.Matrix([x.p for x in e.a])

def build(P, rng, scramble=True, B=None, eqs=None, g=None, skip=()):
    """the program as a graph; symbols and equations in random order when scramble"""
    g = g or Graph()
    B = B or gprog.Builder(S)
    B.sym["time"] = g.getVariable("time")
    names = [n for n in P.order]
    if scramble: rng.shuffle(names)
    for n in names:
        kind, sh = P.vars[n]
        if n in skip: continue
        B.sym[n] = g.addVariable(n, gprog.lib_shape(sh), KIND[kind], initial(P, n, B))
    eqs = list(P.eqs if eqs is None else eqs)
    if scramble: rng.shuffle(eqs)
    for lhs, rhs, kind in eqs:
        add_eq(g, B, lhs, rhs)
    return g, B

def regroup(P, rng, eqs):
    """the same equations, some of them stated as lists"""
    eqs = list(eqs)
    sc = [i for i, (l, r, k) in enumerate(eqs) if l[0] == "s" and k == "var" and P.vars[l[1]][1] == (1, 1)]
    if len(sc) >= 2 and rng.random() < 0.5:
        for _ in range(4):
            i, j = rng.sample(sc, 2)
            if not dep_path(P, eqs[i][0][1], eqs[j][0][1]) and not dep_path(P, eqs[j][0][1], eqs[i][0][1]):
                eqs[i] = (("list", [eqs[i][0][1], eqs[j][0][1]]), [eqs[i][1], eqs[j][1]], "var"); del eqs[j]; break
    return eqs

def deps_of(P):
    d = {}
    for l, r, k in P.eqs:
        s = gprog.sym_names(r)
        if l[0] == "s": d[l[1]] = s
        elif l[0] == "q":
            for n in l[1]: d[n] = s
        elif l[0] == "der": d["der_" + l[1]] = s
    return d

def dep_path(P, a, b):
    """b depends on a, however indirectly"""
    d = deps_of(P); seen, st = set(), [b]
    while st:
        x = st.pop()
        if x == a: return True
        if x in seen: continue
        seen.add(x); st += list(d.get(x, ()))
    return False

def add_eq(g, B, lhs, rhs):
    if lhs[0] == "list":
        g.addEquation([B.sym[x] for x in lhs[1]], [S.Number(e) if isinstance(e, (int, float)) else e for e in map(B.b, rhs)]); return
    r = B.b(rhs) if isinstance(rhs, N) else rhs
    if lhs[0] == "s": g.addEquation(B.sym[lhs[1]], r)
    elif lhs[0] == "q": g.addEquation([B.sym[x] for x in lhs[1]], r)
    elif lhs[0] == "der": g.addEquation(S.der(B.sym[lhs[1]]), r)
    elif lhs[0] == "none": g.addEquation(None, r)

NS = dict(matrix=np.matrix, linalg=np.linalg, zeros=np.zeros, sin=np.sin, cos=np.cos, tan=np.tan, asin=np.arcsin, acos=np.arccos,
          atan=np.arctan, atan2=np.arctan2, sign=lambda x: np.sign(x) * 1.0, abs=abs, sqrt=np.sqrt, pi=np.pi)
NAME = re.compile(r"[A-Za-z_]\w*")

def lhs_names(s):
    """names assigned by a left-hand side as printed"""
    if s.startswith("matrix("): s = s[7:].replace(", dtype=float)", "")
    return [x for x in NAME.findall(s)]

def val(x, sh=None):
    a = np.array(x, dtype=float)
    return a.reshape(1, 1) if a.ndim == 0 else (a.reshape(-1, 1) if a.ndim == 1 else a)

def as_lib(v): return float(v[0, 0]) if v.shape == (1, 1) else np.matrix(v)

def flat(ass):
    """list of (lhs text, rhs text) of the assignments, and the lists they came in"""
    out = []
    for a in ass:
        l, r = a.lhs, a.rhs
        if isinstance(l, list):
            if not isinstance(r, list) or len(l) != len(r): raise Fail("shape", "lhs/rhs lists", "%s = %s" % (l, r))
            out += [(str(x), str(y)) for x, y in zip(l, r)]
        else: out.append((str(l), str(r)))
    return out

def check_assignments(out, ass, known, ref, tol, need, tag):
    """runs the assignments in the order given; every monitor of G01"""
    env = {n: as_lib(v) for n, v in known.items()}
    pos = 0
    for l, r in flat(ass):
        pos += 1
        try: code = compile(r, "rhs", "eval")
        except SyntaxError: raise Fail("unreadable", tag, "%s = %s" % (l, r))
        used = [n for n in code.co_names if n not in NS and not n in ("T", "I", "dtype", "solve", "float", "inv")]
        un = [n for n in used if n not in env]
        if un: raise Fail("used-before-definition", tag, "%s used in %s = %s before being defined" % (un, l, r))
        ns = lhs_names(l)
        if not ns: raise Fail("unreadable", tag, "lhs %r" % l)
        dup = [n for n in ns if n in env]
        if dup: raise Fail("assigned-twice", tag, "%s is assigned again by %s = %s" % (dup, l, r))
        try: v = val(eval(code, dict(NS, **{n: env[n] for n in used}, float=float)))
        except Exception as e: raise Fail("unreadable", tag + " " + type(e).__name__, "%s: %s = %s" % (e, l, r))
        out.inc("values")
        if len(ns) == 1:
            n = ns[0]
            if n in ref:
                if v.shape != ref[n].shape: raise Fail("shape", tag, "%s has shape %s, expected %s: %s" % (n, v.shape, ref[n].shape, r))
                d = np.max(np.abs(v - ref[n]))
                if not d <= tol[n]: raise Fail("value", tag, "%s = %s, expected %s (diff %g tol %g) from %s" % (n, v.tolist(), ref[n].tolist(), d, tol[n], r))
                out.inc("comparisons")
            elif n.startswith("der_") and n[4:] in known: pass
            env[n] = as_lib(v)
        else:
            if v.size != len(ns): raise Fail("shape", tag, "%s = %s gives %s" % (l, r, v.tolist()))
            for n, x in zip(ns, v.ravel()):
                if n in ref and not abs(ref[n][0, 0] - x) <= tol[n]: raise Fail("value", tag, "%s = %s, expected %s" % (n, x, ref[n].tolist()))
                out.inc("comparisons")
                env[n] = float(x)
    miss = [n for n in need if n not in env]
    if miss: raise Fail("not-defined", tag, "requested but not defined: %s" % miss)
    return pos

OPS = gprog.CORE + gprog.EXTRA + ["solve", "inv", "sqrt", "mpow"]

def needs(P, what):
    """what the assignments of a kind must define"""
    if what == "der": return ["der_" + l[1] for l, r, k in P.eqs if l[0] == "der"]
    return [n for n in P.order if P.vars[n][0] == "sen"]

def describe(P): return ["%s := %r" % (l, r) for l, r, k in P.eqs]

def small_prog(rng, tier, **kw):
    return gprog.gen_prog(rng, OPS, mech=rng.random() < 0.7, nvar=(2, 10) if rng.random() < 0.8 else (10, 25), depth=rng.choice([2, 3, 3]), visual=False, **kw)

def known_of(P, e0, ref):
    k = dict(e0)
    for n in P.order:
        if P.vars[n][0] in ("par", "con"): k[n] = ref[n]
    return k

def sorted_case(optimize):
    def case(out, rng, idx, tier):
        P = small_prog(rng, tier)
        pts = gprog.reference(P, rng)
        if not pts: out.inc("undefined"); return
        eqs = regroup(P, rng, P.eqs)
        out.inc("list_equations", sum(l[0] == "list" for l, r, k in eqs))
        try: g, B = build(P, rng, eqs=eqs)
        except CS.Error as e:
            if "not supported" in str(e): out.inc("refused"); return
            raise
        # graphs of the same symbols built before or after this one must neither change nor be changed
        other = None
        if rng.random() < .4:
            other, B2 = build(P, rng, eqs=regroup(P, rng, P.eqs)); out.inc("neighbours")
            if rng.random() < .5: other.buildGraph(rng.random() < .8)
            else: other.pending = True
        g.buildGraph(optimize)
        if getattr(other, "pending", False): other.buildGraph(rng.random() < .8)
        if other is not None:
            for what, kind in (("der", VarKind.Der_State), ("sen", VarKind.Sensor)):
                need = needs(P, what)
                if what == "sen" and not need: continue
                for e0, ref, tol in pts[:1]: check_assignments(out, other.getAssignments(kind), known_of(P, e0, ref), ref, tol, need, what + " neighbour")
        ndone = 0
        for what, kind in (("der", VarKind.Der_State), ("sen", VarKind.Sensor)):
            need = needs(P, what)
            if what == "sen" and not need: continue
            ass = g.getAssignments(kind)
            for e0, ref, tol in pts:
                n = check_assignments(out, ass, known_of(P, e0, ref), ref, tol, need, what + ("+opt" if optimize else ""))
            ndone += n
        out.inc("assignments", ndone); out.inc("programs"); out.inc("equations", len(P.eqs)); out.inc("eliminated", len(P.eqs) - ndone)
        if ndone > 5: out.inc("distinct")
        out.sample({"equations": describe(P)[:12], "assignments": flat(ass)[:10]})
    return case

# ------------------------------------------------------------------------------------------------ ill-posed systems
def closure(P):
    """the symbols the derivatives and sensors need"""
    d = deps_of(P); seen = set(); st = ["der_" + l[1] for l, r, k in P.eqs if l[0] == "der"] + needs(P, "sen")
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); st += list(d.get(x, ()))
    return seen

def defs(l): return [l[1]] if l[0] == "s" else (list(l[1]) if l[0] == "q" else [])

def residual_ok(P, eqs, known, ass_env):
    """all stated equations hold for the values found"""
    env = {n: val(v) for n, v in ass_env.items()}
    for l, r, k in eqs:
        try: v = gprog.ev(r, env)
        except (KeyError, gprog.Undefined): continue
        for i, n in enumerate(defs(l) or ["der_" + l[1]]):
            w = v if l[0] != "q" else v[i:i + 1, :]
            if n in env and not np.max(np.abs(env[n] - w)) <= 1e-6 * (1 + np.max(np.abs(w))): return "%s = %s but the right side is %s" % (n, env[n].tolist(), w.tolist())
    return None

def mutate(P, rng, B):
    """(description, equations, extra action, must be refused)"""
    eqs = list(P.eqs); cl = closure(P)
    used = [i for i, (l, r, k) in enumerate(eqs) if l[0] in "sq" and k in ("var", "dst") and any(n in cl for n in defs(l))]
    sc = [i for i in used if eqs[i][0][0] == "s"]
    for _ in range(20):
        m = rng.choice(["drop", "drop", "dropder", "dup", "dupgroup", "dupder", "dupvar", "foreign", "cycle", "cycle", "cycle", "self", "shape", "shapelist", "excess", "foreignlhs", "twice"])
        if m == "drop" and used:
            i = rng.choice(used); l, r, k = eqs.pop(i); return m, "without %r" % (l,), eqs, None
        if m == "dropder":
            c = [i for i, (l, r, k) in enumerate(eqs) if l[0] == "der" and l[1] in cl]
            if c: i = rng.choice(c); l, r, k = eqs.pop(i); return m, "without %r" % (l,), eqs, None
        if m == "dup" and sc:
            l, r, k = eqs[rng.choice(sc)]
            g = gprog.Gen(rng, ["add", "mul", "sin"], ((1, 1),)); g.pool = [N("sym", p="time")]
            sh = P.vars[l[1]][1]
            e = g.expr((1, 1), 2) if sh == (1, 1) else N("mat", [g.num() for _ in range(sh[0] * sh[1])], sh)
            return m, "%r a second time" % (l,), eqs + [(l, e, k)], None
        if m == "dupgroup":
            c = [l for l, r, k in eqs if l[0] == "q"]
            if c:
                n = rng.choice(rng.choice(c)[1]); return m, "%s a second time" % n, eqs + [(("s", n), N("num", p=2.5), "var")], None
        if m == "dupder":
            c = [l for l, r, k in eqs if l[0] == "der"]
            l = rng.choice(c); sh = P.vars[l[1]][1]
            return m, "%r a second time" % (l,), eqs + [(l, N("mat", [N("num", p=2.5)] * sh[0], sh) if sh != (1, 1) else N("num", p=2.5), "der")], None
        if m == "dupvar":
            return m, "a variable twice", eqs, lambda g: g.addVariable(rng.choice(P.order), (), VarKind.Variable)
        if m in ("foreign", "foreignlhs"):
            h = Graph(); f = h.addVariable("foreign7", (), VarKind.Variable); B.sym["foreign7"] = f; B.keep.append(h)
            if m == "foreignlhs": return m, "an equation for a variable of another graph", eqs + [(("s", "foreign7"), N("num", p=2), "var")], None
            if sc:
                i = rng.choice(sc); l, r, k = eqs[i]
                x = N("sym", p="foreign7")
                eqs[i] = (l, N("mul", [N("add", [x, N("num", p=2.5)]), r], r.sh), k); return m, "a variable of another graph in %r" % (l,), eqs, None
        if m in ("cycle", "self") and sc:
            i = rng.choice(sc); l, r, k = eqs[i]; a = l[1]
            if m == "self": bs = [a]
            else: bs = [n for n in (x for l2, r2, k2 in eqs for x in defs(l2)) if n != a and n in cl and dep_path(P, a, n)]
            if not bs: continue
            b = rng.choice(bs); sh = P.vars[b][1]; x = N("sym", p=b, sh=sh)
            e = x if sh == (1, 1) else N("elem", [x], p=(rng.randrange(sh[0]), rng.randrange(sh[1])))
            e = rng.choice([lambda: N("sin", [e]), lambda: N("mul", [N("num", p=0.3), e]), lambda: e])()
            if P.vars[a][1] == (1, 1): e = N("add", [r, e])
            else: e = N("mul", [N("add", [e, N("num", p=1.5)]), r], r.sh)
            eqs[i] = (l, e, k); return m, "%s depends on %s" % (a, b), eqs, None
        if m == "shape" and sc:
            i = rng.choice(sc); l, r, k = eqs[i]
            other = rng.choice([s for s in ((1, 1), (2, 1), (3, 1), (3, 3), (2, 2), (4, 1)) if s != r.sh])
            e = N("mat", [N("num", p=rng.uniform(1, 2)) for _ in range(other[0] * other[1])], other) if other != (1, 1) else N("sym", p="time")
            eqs[i] = (l, e, k); return m, "%s of shape %s" % (l, other), eqs, None
        if m == "shapelist":
            c = [i for i, (l, r, k) in enumerate(eqs) if l[0] == "q"]
            if c:
                i = rng.choice(c); l, r, k = eqs[i]; n = len(l[1]) + rng.choice([-1, 1])
                eqs[i] = (l, N("mat", [N("num", p=1.5 + j) for j in range(n)], (n, 1)) if n > 1 else N("num", p=1.5), k); return m, "%r of length %d" % (l, n), eqs, None
        if m == "excess":
            c = [n for n in P.order if P.vars[n][1] == (1, 1) and P.vars[n][0] == "var"]
            if c: return m, "one equation too many", eqs + [(("none",), N("sub", [N("sym", p=rng.choice(c)), N("num", p=2.5)]), "var")], None
        if m == "twice" and sc:
            l, r, k = eqs[rng.choice(sc)]
            if P.vars[l[1]][1] != (1, 1): continue
            return m, "%s twice in one list" % l[1], eqs, lambda g: g.addEquation([B.sym[l[1]], B.sym[l[1]]], [S.Number(1.5), S.Number(2.5)])
    return None

# drop, dropder, foreign and cycle are accepted when what remains after simplification does not need the symbol
MUST = {"dup", "dupgroup", "dupder", "dupvar", "foreignlhs", "shape", "shapelist", "excess", "twice"}

def illposed_case(out, rng, idx, tier):
    P = small_prog(rng, tier)
    pts = gprog.reference(P, rng, want=1)
    if not pts: out.inc("undefined"); return
    opt = rng.random() < 0.5
    B = gprog.Builder(S)
    mu = mutate(P, rng, B)
    if mu is None: out.inc("nomutant"); return
    m, text, eqs, act = mu
    if m == "dropder" and not any(l[0] == "der" for l, r, k in eqs): out.inc("nomutant"); return
    before = set(os.listdir("."))
    stage = "stated"; g = Graph()
    try:
        if act is None: build(P, rng, B=B, eqs=eqs, g=g)
        else:
            build(P, rng, B=B, eqs=eqs, g=g); act(g)
        stage = "built"; g.buildGraph(opt)
        stage = "used"; asd = g.getAssignments(VarKind.Der_State); ass = g.getAssignments(VarKind.Sensor) if needs(P, "sen") else []
    except CaseTimeout: raise
    except BaseException as e:      # pymbs.symbolics.graph.ShapeError derives from BaseException
        if not str(e).strip(): raise Fail("silent-error", m, "%s refused without a reason: %r" % (text, e))
        out.group("refused_when", stage); out.group("refused", m); out.inc("evaluations"); out.inc("distinct")
        if m in ("drop", "dropder", "cycle", "foreign"): out.sample({"mutant": text, "error": str(e)[:200]})
        left = set(os.listdir(".")) - before
        if left: raise Fail("files", m, "%s: refusal left %s" % (text, left))
        # the graph library is still usable afterwards
        if rng.random() < 0.1: sorted_case(False)(type(out)(), rng, idx, tier)
        return
    if m in MUST: raise Fail("accepted", m, "%s is accepted: %s" % (text, flat(asd)[:20]))
    # a cyclic definition that is accepted has been solved, or was none
    e0, ref, tol = pts[0]
    env = known_of(P, e0, ref)
    if m == "dropder": env.pop(text.split("'")[3], None)
    for l, r in flat(asd) + flat(ass):
        v = None
        try: v = val(eval(r, dict(NS, **{n: as_lib(x) if isinstance(x, np.ndarray) else x for n, x in env.items()})))
        except NameError as e: raise Fail("used-before-definition", m, "%s (%s): %s = %s" % (e, text, l, r))
        for j, n in enumerate(lhs_names(l)): env[n] = v if len(lhs_names(l)) == 1 else v.reshape(-1, 1)[j:j + 1]
    bad = residual_ok(P, eqs, None, env)
    if bad: raise Fail("accepted", m, "%s is accepted and the values do not satisfy the equations: %s" % (text, bad))
    out.group("accepted_and_satisfied", m); out.inc("evaluations")

MODES = {"illposed": illposed_case, "sorted": sorted_case(False), "opt": sorted_case(True)}

if __name__ == "__main__":
    if sys.argv[1] == "show":
        mode, seed, idx = sys.argv[2], sys.argv[3], int(sys.argv[4])
        from worker import Out, case_rng
        rng = case_rng(seed, mode, idx)
        try: MODES[mode](Out(), rng, idx, "quick")
        except Fail as e: print(e.kind, e.sig, e.detail)
        rng = case_rng(seed, mode, idx); P = small_prog(rng, "quick")
        for d in describe(P): print("   ", d)
    else: run(sys.argv[1], MODES[sys.argv[1]], sys.argv[2:])
