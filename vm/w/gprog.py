"""Random equation systems with reference values.

A program is generated from a seed as an own expression tree (class N), evaluated here with numpy (the
reference), and built a second time through pymbs.symbolics. Nothing of the library is used for the reference.
"""
import math, random
import numpy as np

class Undefined(Exception):
    """the written expression is not (safely) defined at this point"""

class N:
    __slots__ = ("op", "a", "sh", "p", "deps")
    def __init__(self, op, a=(), sh=(1, 1), p=None):
        self.op, self.a, self.sh, self.p = op, tuple(a), sh, p
    def __repr__(self):
        if self.op == "sym": return self.p
        if self.op == "num": return repr(self.p)
        if self.op == "elem": return "%r[%d,%d]" % (self.a[0], self.p[0], self.p[1])
        if self.op == "mat": return "Mat%dx%d%r" % (self.sh[0], self.sh[1], list(self.a))
        return "%s(%s%s)" % (self.op, ",".join(map(repr, self.a)), "" if self.p is None else ";%r" % (self.p,))

def sym_names(n, acc=None):
    acc = set() if acc is None else acc
    st = [n]
    while st:
        x = st.pop()
        if x.op == "sym": acc.add(x.p)
        st.extend(x.a)
    return acc

BIG = 1e5
def ev(n, env, memo=None):
    """reference value, an array of shape n.sh; raises Undefined near singularities and discontinuities"""
    memo = {} if memo is None else memo
    k = id(n)
    if k in memo: return memo[k]
    A = [ev(x, env, memo) for x in n.a]
    op = n.op
    if op == "sym": r = env[n.p]
    elif op == "num": r = np.full((1, 1), float(n.p))
    elif op == "zeros": r = np.zeros(n.sh)
    elif op == "add": r = sum(A[1:], A[0])
    elif op == "sub": r = A[0] - A[1]
    elif op == "neg": r = -A[0]
    elif op == "mul": r = A[0] * A[1]                  # at least one scalar, or elementwise never
    elif op == "dot": r = A[0] @ A[1]
    elif op == "div":
        d = A[1][0, 0]
        if abs(d) < 0.05: raise Undefined
        r = A[0] / d
    elif op == "pow":
        b = A[0][0, 0]
        if n.p < 0 and abs(b) < 0.05: raise Undefined
        if n.p != int(n.p) and b < 0.05: raise Undefined
        r = np.full((1, 1), b ** n.p)
    elif op in ("sin", "cos", "tan", "atan"):
        x = A[0][0, 0]
        if op == "tan" and abs(math.cos(x)) < 0.05: raise Undefined
        r = np.full((1, 1), getattr(math, op)(x))
    elif op in ("asin", "acos"):
        x = A[0][0, 0]
        if abs(x) > 0.95: raise Undefined
        r = np.full((1, 1), getattr(math, op)(x))
    elif op == "atan2":
        y, x = A[0][0, 0], A[1][0, 0]
        if abs(y) < 1e-3: raise Undefined
        r = np.full((1, 1), math.atan2(y, x))
    elif op == "sign":
        x = A[0][0, 0]
        if abs(x) < 1e-3: raise Undefined
        r = np.full((1, 1), math.copysign(1.0, x))
    elif op == "abs":
        x = A[0][0, 0]
        if abs(x) < 1e-6: raise Undefined
        r = np.abs(A[0])
    elif op == "iflt" or op == "ifgt":
        d = A[0][0, 0] - A[1][0, 0]
        if abs(d) < 1e-3: raise Undefined
        r = A[2] if (d < 0) == (op == "iflt") else A[3]
    elif op == "tr": r = A[0].T
    elif op == "skew":
        v = A[0].ravel(); r = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
    elif op == "outer": r = A[0] @ A[1].T
    elif op == "scalar": r = A[0]
    elif op == "elem": r = A[0][n.p[0]:n.p[0] + 1, n.p[1]:n.p[1] + 1]
    elif op == "mat": r = np.array([x[0, 0] for x in A]).reshape(n.sh)
    elif op in ("inv", "solve"):
        M = A[0]
        c = np.linalg.cond(M)
        if not (c < 1e4): raise Undefined
        r = np.linalg.inv(M) if op == "inv" else np.linalg.solve(M, A[1])
    elif op == "mpow":
        if n.p < 0 and not (np.linalg.cond(A[0]) < 1e3): raise Undefined
        r = np.linalg.matrix_power(A[0], n.p)
    else: raise AssertionError(op)
    if r.shape != tuple(n.sh): raise AssertionError("%r gives %s" % (n, r.shape))
    if not np.all(np.abs(r) < BIG): raise Undefined
    memo[k] = r
    return r

# ------------------------------------------------------------------------------------------- generator
CORE = ["add", "sub", "neg", "mul", "dot", "div", "pow", "sin", "cos", "tr", "elem", "mat", "scalar", "zeros", "outer", "skew"]
EXTRA = ["tan", "atan", "asin", "acos", "atan2", "sign", "abs", "if"]
NUMS = [2, 3, -1, 5, 0.5, -0.75, 1.25, 2.5, 0.1, -3, 7, 1e-3, 12.5, 1, 0]

class Gen:
    def __init__(self, rng, ops, shapes=((1, 1), (2, 1), (3, 1), (3, 3), (2, 2))):
        self.r, self.ops, self.shapes = rng, ops, list(shapes)
        self.pool = []           # available nodes
    def num(self):
        r = self.r
        if r.random() < 0.3: return N("num", p=round(r.uniform(-4, 4), r.choice([1, 2, 4, 8])))
        return N("num", p=r.choice(NUMS))
    def leaf(self, sh):
        r = self.r
        c = [x for x in self.pool if x.sh == sh]
        if c and r.random() < 0.85: return r.choice(c)
        if sh == (1, 1):
            e = [x for x in self.pool if x.sh != (1, 1)]
            if e and r.random() < 0.5:
                x = r.choice(e); return N("elem", [x], p=(r.randrange(x.sh[0]), r.randrange(x.sh[1])))
            return self.num()
        if "zeros" in self.ops and r.random() < 0.1: return N("zeros", sh=sh)
        return N("mat", [self.leaf((1, 1)) for _ in range(sh[0] * sh[1])], sh)
    def small(self, e):
        """a scalar in (-0.7,0.7), for asin and the like"""
        k = N("num", p=self.r.choice([0.37, 0.61, 0.53]))
        return N("mul", [k, N("sin", [N("add", [e, N("num", p=0.3)])])])
    def posdef(self, n, d):
        """a matrix that is diagonally dominant"""
        el = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                if i == j: el[i][j] = N("add", [N("num", p=self.r.choice([4, 5, 6.5])), N("sin", [self.expr((1, 1), d)])])
                elif j < i and self.r.random() < 0.6: el[i][j] = el[j][i]
                else: el[i][j] = N("cos", [self.expr((1, 1), d)]) if self.r.random() < 0.7 else N("num", p=0)
        return N("mat", [x for row in el for x in row], (n, n))
    def regular(self, n, d):
        """a regular matrix, with the large elements anywhere"""
        m = self.posdef(n, d)
        if self.r.random() < 0.5: return m
        rows = [m.a[i * n:(i + 1) * n] for i in range(n)]; self.r.shuffle(rows)
        return N("mat", [x for row in rows for x in row], (n, n))
    def expr(self, sh, d):
        r = self.r
        if d <= 0 or r.random() < 0.12: return self.leaf(sh)
        for _ in range(30):
            op = r.choice(self.ops)
            s = (1, 1)
            if op == "add": return N("add", [self.expr(sh, d - 1) for _ in range(r.choice([2, 2, 3]))], sh)
            if op == "sub": return N("sub", [self.expr(sh, d - 1), self.expr(sh, d - 1)], sh)
            if op == "neg": return N("neg", [self.expr(sh, d - 1)], sh)
            if op == "mul":
                a, b = self.expr(s, d - 1), self.expr(sh, d - 1)
                return N("mul", [a, b] if r.random() < 0.5 else [b, a], sh)
            if op == "dot":
                k = r.choice([2, 3])
                if sh == s: return N("dot", [N("tr", [self.expr((k, 1), d - 1)], (1, k)), self.expr((k, 1), d - 1)])
                if sh[1] == 1 and sh[0] in (2, 3): return N("dot", [self.expr((sh[0], sh[0]), d - 1), self.expr(sh, d - 1)], sh)
                if sh[0] == sh[1]: return N("dot", [self.expr(sh, d - 1), self.expr(sh, d - 1)], sh)
                continue
            if op == "div": return N("div", [self.expr(sh, d - 1), self.expr(s, d - 1)], sh)
            if op == "tr":
                if sh == s: continue
                if sh[0] == sh[1]: return N("tr", [self.expr(sh, d - 1)], sh)
                continue
            if op == "skew" and sh == (3, 3): return N("skew", [self.expr((3, 1), d - 1)], sh)
            if op == "outer" and sh[0] == sh[1] and sh[0] > 1:
                return N("outer", [self.expr((sh[0], 1), d - 1), self.expr((sh[0], 1), d - 1)], sh)
            if op == "mat" and sh != s: return N("mat", [self.expr(s, d - 2) for _ in range(sh[0] * sh[1])], sh)
            if op == "inv" and sh[0] == sh[1] and sh[0] > 1: return N("inv", [self.regular(sh[0], d - 2)], sh)
            if op == "mpow" and sh[0] == sh[1] and sh[0] > 1:
                k = r.choice([2, 3, -1, -2, -3, 4])
                # an explicit matrix is multiplied out at once, a sum stays a power
                b = self.posdef(sh[0], d - 2) if k < 0 and r.random() < 0.3 else self.expr(sh, d - 2)
                if k < 0 and b.op != "mat": b = N("add", [b, N("mat", [N("num", p=9.5 if i == j else 0) for i in range(sh[0]) for j in range(sh[0])], sh)], sh)
                return N("mpow", [b], sh, p=k)
            if op == "solve" and sh[1] == 1 and sh[0] > 1: return N("solve", [self.regular(sh[0], d - 2), self.expr(sh, d - 1)], sh)
            if op == "zeros" and r.random() < 0.3 and sh != s: return N("zeros", sh=sh)
            if op == "if":
                return N(r.choice(["iflt", "ifgt"]), [self.expr(s, d - 2), self.expr(s, d - 2), self.expr(sh, d - 1), self.expr(sh, d - 1)], sh) \
                    if sh == s else self.leaf(sh)
            if sh != s: continue
            if op == "pow": return N("pow", [self.expr(s, d - 1)], p=r.choice([2, 2, 3, -1, -2, 4]))
            if op in ("sin", "cos", "sign", "abs"): return N(op, [self.expr(s, d - 1)])
            if op in ("tan", "atan"): return N(op, [N("mul", [N("num", p=0.41), self.expr(s, d - 1)])])
            if op in ("asin", "acos"): return N(op, [self.small(self.expr(s, d - 2))])
            if op == "sqrt": return N("pow", [N("add", [N("num", p=1.3), N("pow", [self.expr(s, d - 2)], p=2)])], p=0.5)
            if op == "atan2": return N("atan2", [self.expr(s, d - 1), self.expr(s, d - 1)])
            if op == "elem":
                q = r.choice([x for x in self.shapes if x != s] or [s])
                if q == s: continue
                return N("elem", [self.expr(q, d - 1)], p=(r.randrange(q[0]), r.randrange(q[1])))
            if op == "scalar":
                k = r.choice([2, 3])
                return N("scalar", [N("dot", [N("tr", [self.expr((k, 1), d - 1)], (1, k)), self.expr((k, 1), d - 1)])])
        return self.leaf(sh)

class Prog: pass

def gen_prog(rng, ops, mech=True, nvar=(3, 9), shapes=((1, 1), (2, 1), (3, 1), (3, 3), (2, 2)), inputs=True, const=True,
             param_formula=True, state_shapes=((1, 1), (2, 1), (3, 1)), single_state=False, depth=3, der_rhs=True, sensors=True,
             sensor_shapes=None, visual=True, var_shapes=None, elim=True, early_sensors=True, par_shapes=None):
    """A solvable system: parameters, inputs, states, intermediate variables, state derivatives, sensors.
    P.vars: name -> (kind, shape); P.eqs: list of (lhs, rhs N, kind) in dependency order, lhs = ('s',name) | ('der',state) |
    ('vec', [names]) | ('q', statevec, [names])."""
    P = Prog()
    P.vars, P.order, P.eqs, P.init = {}, [], [], {}
    g = Gen(rng, ops, shapes)
    def add(name, kind, sh):
        P.vars[name] = (kind, sh); P.order.append(name)
        return N("sym", sh=sh, p=name)
    def nm(base):
        while True:
            s = base + (rng.choice(["", "_a", "_long_name", "B", "_1"])) + str(rng.randrange(30))
            if s not in P.vars: return s
    # parameters
    params = []
    for _ in range(rng.randrange(1, 4)):
        sh = rng.choice([(1, 1), (1, 1)] + [s for s in shapes if s != (1, 1)]) if par_shapes is None else rng.choice(par_shapes)
        n = nm(rng.choice(["m", "p", "l", "k"]))
        if sh == (1, 1):
            rhs = N("num", p=rng.choice([round(rng.uniform(0.2, 4), 3), rng.uniform(0.1, 5), 2, -1.5]))
        else:
            vals = [rng.choice([round(rng.uniform(-3, 3), 2), rng.choice([0, 1, 2])]) for _ in range(sh[0] * sh[1])]
            if all(v == 1 for v in vals) or all(v == 0 for v in vals): vals[0] = 2.5
            rhs = N("mat", [N("num", p=v) for v in vals], sh)
        s = add(n, "par", sh); P.eqs.append((("s", n), rhs, "par")); params.append(s)
        P.init[n] = rhs
    if const and rng.random() < 0.5:
        sh = rng.choice([(1, 1), (1, 1)] + [s for s in shapes if s != (1, 1)]) if par_shapes is None else (1, 1)
        n = nm("c"); num = lambda: N("num", p=round(rng.uniform(0.5, 3), 3))
        rhs = num() if sh == (1, 1) else N("mat", [num() for _ in range(sh[0] * sh[1])], sh)
        s = add(n, "con", sh); P.eqs.append((("s", n), rhs, "con")); params.append(s); P.init[n] = rhs
    if param_formula and rng.random() < 0.5:
        g.pool = [x for x in params if x.sh == (1, 1)] or []
        if g.pool:
            gg = Gen(rng, ["add", "sub", "mul", "neg"] + rng.choice([[], ["sin", "cos"]]), ((1, 1),)); gg.pool = list(g.pool); gg.fun = None
            for _ in range(rng.choice([1, 1, 2, 3])):
                n = nm("pf"); rhs = gg.expr((1, 1), 2)
                if rng.random() < .3:             # the same function again
                    if gg.fun is None: gg.fun = N(rng.choice(["sin", "cos"]), [N("mul", [N("num", p=.6), rng.choice(gg.pool)])])
                    rhs = N("mul", [gg.fun, rhs])
                s = add(n, "par", (1, 1)); P.eqs.append((("s", n), rhs, "par")); params.append(s); P.init[n] = rhs; gg.pool.append(s)
    ins = []
    if inputs:
        for _ in range(rng.choice([0, 0, 1, 2])):
            sh = (1, 1) if inputs == "scalar" else rng.choice([(1, 1), (1, 1), (3, 1), (2, 1)])
            n = nm("u"); ins.append(add(n, "in", sh)); P.init[n] = N("mat", [N("num", p=round(rng.uniform(-2, 2), 2)) for _ in range(sh[0] * sh[1])], sh) if sh != (1, 1) else N("num", p=round(rng.uniform(-2, 2), 2))
    # states: mechanical pairs (q, qd) and single ones
    sts, pairs, singles = [], [], []
    if single_state: npair, nsing = 1, 0
    else: npair, nsing = rng.choice([(1, 0), (1, 0), (1, 1), (2, 0), (0, 2), (0, 1)])
    ssh0 = rng.choice(list(state_shapes))
    for i in range(npair):
        sh = ssh0 if single_state or rng.random() < 0.5 else rng.choice(list(state_shapes))
        base = "q" if i == 0 else "z%d" % i
        q = add(base, "st", sh); qd = add(base + "d", "st", sh)
        pairs.append((q, qd)); sts += [q, qd]
        for x in (base, base + "d"):
            P.init[x] = N("num", p=round(rng.uniform(-1, 1), 2)) if sh == (1, 1) else N("mat", [N("num", p=round(rng.uniform(-1, 1), 2)) for _ in range(sh[0])], sh)
    for i in range(nsing):
        sh = rng.choice(list(state_shapes)); n = "x%d" % i
        x = add(n, "st", sh); singles.append(x); sts.append(x)
        P.init[n] = N("num", p=0.25) if sh == (1, 1) else N("mat", [N("num", p=round(rng.uniform(-1, 1), 2)) for _ in range(sh[0])], sh)
    t = N("sym", p="time")
    g.pool = sts + ins + params + ([t] if rng.random() < 0.6 else [])
    # the joint coordinates as separate variables: [q_1,q_2] = q
    P.defs = []
    for st in list(sts):
        if st.sh != (1, 1) and mech and rng.random() < 0.6:
            ns = ["%s_%d" % (st.p, i) for i in range(st.sh[0])]
            els = [add(x, "var", (1, 1)) for x in ns]
            P.eqs.append((("q", ns), st, "var"))
            g.pool += els
        elif st.sh == (1, 1) and mech and rng.random() < 0.4:
            n = st.p + "_s"; x = add(n, "var", (1, 1)); P.eqs.append((("s", n), st, "var")); g.pool.append(x)
    variables = []
    vsh = list(var_shapes or shapes)
    ok = lambda rhs: defined(P, rhs)
    P.points = []
    for k in range(rng.randrange(*nvar)):
        for _ in range(6):
            sh = rng.choice(vsh)
            e = g.expr(sh, depth if rng.random() < 0.8 else 1)
            if e.op == "sym" and rng.random() < 0.7: continue
            break
        n = nm(rng.choice(["v", "w", "R", "f", "tmp"]))
        x = add(n, "var", sh); P.eqs.append((("s", n), e, "var")); variables.append(x); g.pool.append(x)
        if elim and rng.random() < 0.5 and len(variables) > 1: g.pool.append(x)        # reuse recent ones
    # sensors other equations refer to
    if sensors and early_sensors and rng.random() < 0.4:
        sh = rng.choice(list(sensor_shapes or shapes)); n = nm("s"); e = g.expr(sh, depth)
        x = add(n, "sen", sh); P.eqs.append((("s", n), e, "sen")); g.pool += [x, x]
        sh = rng.choice(vsh); n = nm("v"); e = N("add", [g.expr(sh, depth - 1), g.leaf(sh)], sh)
        P.eqs.append((("s", n), e, "var")); g.pool += [add(n, "var", sh)] * 2
    # derivatives
    for q, qd in pairs:
        P.eqs.append((("der", q.p), qd, "der"))
        if mech and q.sh[0] > 1 and ("solve" in ops or "msolve" in ops) and rng.random() < 0.7:
            M = N("sym", sh=(q.sh[0], q.sh[0]), p="M_" if q.p == "q" else "M_" + q.p)
            add(M.p, "var", M.sh); P.eqs.append((("s", M.p), g.posdef(q.sh[0], 2), "var"))
            f = add("f_" if q.p == "q" else "f_" + q.p, "var", q.sh); P.eqs.append((("s", f.p), g.expr(q.sh, depth), "var"))
            h = add("h_" if q.p == "q" else "h_" + q.p, "var", q.sh); P.eqs.append((("s", h.p), g.expr(q.sh, depth), "var"))
            qdd = add(q.p + "dd", "dst", q.sh)
            P.eqs.append((("s", qdd.p), N("solve", [M, N("sub", [f, h], q.sh)], q.sh), "dst"))
        elif mech:
            qdd = add(q.p + "dd", "dst", q.sh); e = g.expr(q.sh, depth)
            P.eqs.append((("s", qdd.p), e, "dst"))
        else:
            qdd = g.expr(q.sh, depth)
        P.eqs.append((("der", qd.p), qdd, "der"))
    for x in singles: P.eqs.append((("der", x.p), g.expr(x.sh, depth), "der"))
    if sensors:
        for kind, lo in (("sen", 0), ("vis", 0)):
            if kind == "vis" and not visual: continue
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                sh = rng.choice(list(sensor_shapes or shapes)); n = nm("s" if kind == "sen" else "g")
                if kind == "vis":
                    old = [x for x in g.pool if x.p in ("time",)]
                e = g.expr(sh, depth)
                add(n, kind, sh); P.eqs.append((("s", n), e, kind))
    P.pairs, P.singles, P.params, P.ins, P.sts = pairs, singles, params, ins, sts
    return P

def defined(P, rhs): return True

def point(P, rng, parvals=None):
    """random values of the free symbols; parameters keep the values written in the program"""
    env = {"time": np.full((1, 1), rng.uniform(0.1, 3) if rng.random() < .9 else 0.)}
    special = rng.random() < .3      # zeros and other round numbers at some places
    num = lambda: rng.choice([0., 0., 1., -1., .5]) if special and rng.random() < .4 else rng.uniform(-1.6, 1.6)
    for n in P.order:
        kind, sh = P.vars[n]
        if kind == "in" and getattr(P, "use_init", False):
            e = P.init[n]; env[n] = np.array([[x.p] for x in e.a], float) if e.op == "mat" else np.full((1, 1), float(e.p))
        elif kind in ("st", "in", "ctl"): env[n] = np.array([[num() for _ in range(sh[1])] for _ in range(sh[0])])
    return env

def solve_ref(P, env):
    """values of everything the program defines, by evaluating its equations in dependency order"""
    env = dict(env); memo = {}
    for lhs, rhs, kind in P.eqs:
        v = ev(rhs, env, memo)
        if lhs[0] == "s": env[lhs[1]] = v
        elif lhs[0] == "q":
            for i, n in enumerate(lhs[1]): env[n] = v[i:i + 1, :]
        elif lhs[0] == "der": env["der_" + lhs[1]] = v
    return env

def jitter(P, env, rng, eps=1e-9):
    e = {}
    for k, v in env.items():
        e[k] = v * (1 + eps * np.array([[rng.uniform(-1, 1) for _ in range(v.shape[1])] for _ in range(v.shape[0])])) + eps * rng.uniform(-1, 1)
    return e

def reference(P, rng, want=2, tries=12, rtol=1e-9):
    """up to `want` points with reference values and tolerances; [] when the program is undefined nearly everywhere"""
    out = []
    for _ in range(tries):
        if len(out) >= want: break
        e0 = point(P, rng)
        try:
            ref = solve_ref(P, e0)
            tol = {}
            for k in range(2):
                r2 = solve_ref(P, jitter(P, e0, rng))
                for n in ref:
                    d = np.max(np.abs(r2[n] - ref[n])) if ref[n].size else 0.0
                    tol[n] = max(tol.get(n, 0.0), d)
        except Undefined:
            continue
        if max(tol.values()) > 1e-3: continue
        for n in ref: tol[n] = rtol * (1 + float(np.max(np.abs(ref[n])))) + 20 * tol[n]
        out.append((e0, ref, tol))
    return out

# ------------------------------------------------------------------------------------- building in the library
def lib_shape(sh): return () if sh == (1, 1) else ((sh[0],) if sh[1] == 1 else tuple(sh))

class Builder:
    """builds expressions with pymbs.symbolics; shared sub-trees stay shared"""
    def __init__(self, S, rng=None):
        self.S, self.sym, self.memo, self.keep, self.rng = S, {}, {}, [], rng
    def b(self, n):
        k = id(n)
        if k in self.memo: return self.memo[k]
        S, op = self.S, n.op
        if op == "sym": r = self.sym[n.p]
        elif op == "num": r = n.p
        else:
            A = [self.b(x) for x in n.a]
            if op == "zeros": r = S.zeros(lib_shape(n.sh))
            elif op == "add":
                r = A[0]
                for x in A[1:]: r = r + x
            elif op == "sub": r = A[0] - A[1]
            elif op == "neg": r = -A[0]
            elif op in ("mul", "dot"): r = A[0] * A[1]
            elif op == "div": r = A[0] / A[1] if not (num(A[0]) and num(A[1])) else S.Number(A[0]) / A[1]
            elif op == "mpow": r = A[0] ** n.p
            elif op == "pow": r = (A[0] if not num(A[0]) else S.Number(A[0])) ** n.p
            elif op in ("sin", "cos", "tan", "asin", "acos", "atan", "sign"): r = getattr(S, op)(A[0])
            elif op == "abs": r = abs(A[0])
            elif op == "atan2": r = S.atan2(A[0], A[1])
            elif op in ("iflt", "ifgt"): r = S.If((S.Less if op == "iflt" else S.Greater)(A[0], A[1]), A[2], A[3])
            elif op == "tr": r = S.transpose(A[0])
            elif op == "skew": r = S.skew(A[0])
            elif op == "outer": r = S.outer(A[0], A[1])
            elif op == "scalar": r = S.scalar(A[0]) if not num(A[0]) else A[0]
            elif op == "elem": r = S.element(A[0], n.p[0], n.p[1])
            elif op == "mat":
                rows, c = n.sh
                r = S.Matrix(list(A)) if c == 1 else S.Matrix([list(A[i * c:(i + 1) * c]) for i in range(rows)])
            elif op == "inv": r = S.inv(A[0])
            elif op == "solve": r = S.solve(A[0], A[1])
            else: raise AssertionError(op)
        self.memo[k] = r; self.keep.append(n)
        return r

def num(x): return isinstance(x, (int, float))
