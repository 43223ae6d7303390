"""Worker for the code generators: writerw.py MODE SEED START COUNT PROGRESS TIER, MODE = target[:mech]

One random system (or mechanism) per case; the generated program is executed and every state derivative, sensor and
visualisation quantity it delivers is compared with the reference evaluation of the system."""
import json, os, re, sys, shutil, tempfile, importlib, subprocess, ctypes
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import gprog, matlab, modelica, graphw
from gprog import N
from worker import run, Fail, CaseTimeout
import pymbs.symbolics as S

sys.dont_write_bytecode = True
NAMES = ["mdl", "Model_1", "a", "pend", "m2"]

class Target:
    ops = gprog.CORE + ["solve"] + gprog.EXTRA
    visual_time = False       # the visualisation function is not given the time
    visual_inputs = False
    controllers = False
    matrix_inputs = True
    shapes = ((1, 1), (2, 1), (3, 1), (3, 3), (2, 2), (2, 3))
    par_shapes = None
    kw = {}
    ctl = None
    maxdof = 4
    refusal = None            # message of an operation the target does not have
    def files(self, name): return []
    def prepare(self, d, name, P, want): pass
    def close(self): pass

class TooLong(Exception): pass

class Quiet:
    """what the library writes to stdout and stderr (C++ streams included)"""
    def __enter__(self):
        sys.stdout.flush(); sys.stderr.flush()
        self.f = tempfile.TemporaryFile("w+b"); self.o = os.dup(1); self.e = os.dup(2)
        os.dup2(self.f.fileno(), 1); os.dup2(self.f.fileno(), 2); return self
    def __exit__(self, *a):
        sys.stdout.flush(); sys.stderr.flush()
        os.dup2(self.o, 1); os.dup2(self.e, 2); os.close(self.o); os.close(self.e)
        self.f.seek(0); self.text = self.f.read().decode("utf8", "replace"); self.f.close()

# ----------------------------------------------------------------------------------------------------------- Python
class Py(Target):
    controllers = True
    visual_inputs = True
    ops = gprog.CORE + ["solve", "inv", "mpow"] + gprog.EXTRA
    typ, gen = "py", "Python"
    def files(self, name): return [name + "_der_state.py", name + "_sensors.py", name + "_visual.py"]
    def load(self, d, name, G):
        for k in list(sys.modules):
            if k.startswith(name + "_") or k == "ctlmod": del sys.modules[k]
        importlib.invalidate_caches()
        sys.path.insert(0, d)
        self.mods = {}
        try:
            for part in ("der_state", "sensors", "visual"):
                f = "%s/%s_%s.py" % (d, name, part)
                if not os.path.exists(f): continue
                try: self.mods[part] = importlib.import_module("%s_%s" % (name, part))
                except Exception as e: raise Fail("does-not-import", "%s %s" % (part, type(e).__name__), "%s\n%s" % (e, open(f).read()))
        finally: sys.path.remove(d)
        self.name, self.G = name, G
        self.ctl = sys.modules.get("ctlmod")
    def call(self, env, part, order, use_init):
        m = self.mods[part]
        if not use_init:
            ins = {n: graphw.as_lib(env[n]) for n in self.G.inputs}; t0 = float(env["time"][0, 0]) * 10 % 1
            for q in self.mods.values():
                if not hasattr(q, self.name + "_setInputs"): continue
                mine = [k for k in ins if k in q._inputs]
                for ks in ([mine] if t0 < .5 else [mine[::2], mine[1::2]]):          # all at once or in parts
                    d = {k: ins[k] for k in ks}; e = dict(d); getattr(q, self.name + "_setInputs")(d)
                    if list(d) != list(e) or any(d[k] is not e[k] for k in e): raise Fail("inputs-changed", part, "setInputs modifies the dictionary passed in")
        y = np.concatenate([env[n].ravel() for n in order]) if order else np.zeros(0)
        y0 = y.copy()
        t = float(env["time"][0, 0])
        f = getattr(m, "%s_%s" % (self.name, part))
        try: r = f(y) if part == "visual" else f(t, y)
        except Exception as e: raise Fail("does-not-run", "%s %s" % (part, type(e).__name__), "%s\n%s" % (e, open(m.__file__).read()))
        if not np.array_equal(y, y0): raise Fail("state-changed", part, "the state vector passed in was modified")
        if part != "der_state": return {k: graphw.val(v) for k, v in r.items()}
        return split(np.asarray(r), order, env, part)

def split(yd, order, env, part):
    """the state derivative as the derivatives of the states"""
    tot = sum(env[n].size for n in order)
    if yd.shape != (tot,): raise Fail("length", part, "state derivative of shape %s for %d states" % (yd.shape, tot))
    out, k = {}, 0
    for n in order:
        s = env[n].shape
        out["der_" + n] = yd[k:k + env[n].size].reshape(s); k += env[n].size
    return out

def lib_order(names, shape):
    """the order in which the library lists variables: scalars before vectors, shorter before longer ones, then by name"""
    return sorted(names, key=lambda n: (len(gprog.lib_shape(shape[n])), shape[n], n))

class Guarded:
    """an array for native code, with a guard zone on both sides"""
    PAD = 32
    def __init__(self, v, where):
        self.n, self.where = v.size, where
        self.b = np.full(self.n + 2 * self.PAD, 7.25e77); self.b[self.PAD:self.PAD + self.n] = v.ravel(); self.orig = v.copy()
    def ptr(self): return ctypes.c_void_p(self.b.ctypes.data + 8 * self.PAD)
    def val(self): return self.b[self.PAD:self.PAD + self.n].copy()
    def check(self, unchanged=False):
        g = np.concatenate([self.b[:self.PAD], self.b[self.PAD + self.n:]])
        if not np.all(g == 7.25e77): raise Fail("writes-outside", self.where, "positions %s" % np.nonzero(g != 7.25e77)[0].tolist())
        if unchanged and not np.array_equal(self.val(), self.orig.ravel()): raise Fail("input-changed", self.where, "%s -> %s" % (self.orig.ravel().tolist(), self.val().tolist()))

UNSET = -9.125e66
def sh(cmd, cwd, what, src):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode: raise Fail("does-not-compile", what + " " + re.sub(r"[\w.]*?\d[\w.]*", "#", next((l.split("rror:", 1)[1] for l in r.stdout.split("\n") if "rror:" in l), r.stdout[:80])),
                                r.stdout[:2500] + "\n" + src[:12000])
    return r.stdout

# ---------------------------------------------------------------------------------------------------------------- C
class C(Target):
    typ, gen = "c", "C"
    ops = gprog.CORE + ["msolve"] + gprog.EXTRA
    par_shapes = ((1, 1),)
    CC = ["gcc", "-O0", "-g0", "-w", "-fPIC", "-shared", "-D__declspec(x)=", "-fsanitize=undefined", "-fsanitize-undefined-trap-on-error",
          "-ftrivial-auto-var-init=pattern"]
    def files(self, name): return [name + "_der_state.c", name + "_sensors.c", name + "_visual.c", "functionmodule.c"]
    def load(self, d, name, G):
        self.name, self.G, self.fun, self.libs = name, G, {}, []
        src = sources(d, self.files(name))
        for part in ("der_state", "sensors", "visual"):
            f = "%s/%s_%s.c" % (d, name, part)
            if not os.path.exists(f): continue
            so = "%s_%s.so" % (name, part)
            sh(self.CC + ["-o", so, os.path.basename(f), "-lm"], d, part, src)
            text = open(f, errors="replace").read()
            m = re.search(r"int\s+%s_%s\s*\(([^)]*)\)" % (name, part), text)
            if not m: raise Fail("no-function", part, text)
            lib = ctypes.CDLL(os.path.join(d, so)); self.libs.append(lib)
            self.fun[part] = (getattr(lib, "%s_%s" % (name, part)), [a.strip() for a in m.group(1).split(",")])
    def call(self, env, part, order, use_init):
        f, params = self.fun[part]; G = self.G
        y = Guarded(np.concatenate([env[n].ravel() for n in order]), "y"); bufs = [(y, True)]
        args, outs = [], []
        want = lib_order(G.sens if part == "sensors" else G.vis if part == "visual" else [], G.shape)
        nouts = len(want)
        for i, a in enumerate(params):
            m = re.match(r"double\s*(\*?)\s*(\w+)((?:\[\d+\])*)$", a)
            if not m: raise Fail("signature", part, a)
            star, nm, dims = m.groups()
            isout = i >= len(params) - nouts
            if nm == "time" and not isout: args.append(ctypes.c_double(env["time"][0, 0])); continue
            if nm == "y" and star and not isout: args.append(y.ptr()); continue
            if nm == "yd" and star and part == "der_state":
                b = Guarded(np.full(y.n, UNSET), "yd"); outs.append((None, b)); bufs.append((b, False)); args.append(b.ptr()); continue
            if isout:
                n = want[i - len(params) + nouts]
                if not (star or dims): raise Fail("not-delivered", part + " by value", "%s: %s" % (n, a))
                if not nm.startswith(n): raise Fail("order", part, "%s where %s is expected" % (a, n))
                b = Guarded(np.full(G.shape[n], UNSET), n); outs.append((n, b)); bufs.append((b, False)); args.append(b.ptr()); continue
            if nm not in G.inputs and nm not in G.ctl: raise Fail("signature", part, "%s is no input" % a)
            if dims or star:
                b = Guarded(env[nm], nm); bufs.append((b, True)); args.append(b.ptr())
            else: args.append(ctypes.c_double(env[nm][0, 0]))
        f.restype = ctypes.c_int
        rc = f(*args)
        if rc: raise Fail("return-code", part, "%s" % rc)
        for b, same in bufs: b.check(same)
        if part == "der_state":
            v = outs[0][1].val()
            return split(v, order, env, part)
        return {n: b.val().reshape(G.shape[n]) for n, b in outs}
    def close(self): pass

# ---------------------------------------------------------------------------------------------------------- Fortran
class F90(C):
    typ, gen = "f90", "Fortran90"
    par_shapes = None
    ops = [o for o in gprog.CORE + ["solve", "inv", "mpow"] + gprog.EXTRA if o != "if"]
    refusal = "Element: Is only possible for Symbols"
    CC = ["gfortran", "-O0", "-w", "-fPIC", "-shared", "-fcheck=bounds,do,mem,pointer", "-ffree-line-length-none", "-finit-real=snan", "-ftrivial-auto-var-init=pattern"]
    def files(self, name): return [name + "_der_state.f90", name + "_sensors.f90", name + "_visual.f90", "functionmodule.f90"]
    def load(self, d, name, G):
        self.name, self.G, self.fun, self.libs = name, G, {}, []
        src = sources(d, self.files(name)[:3])
        if re.search(r":: *\w{64,}", src): raise TooLong()      # Fortran names have at most 63 characters; the compiler refuses longer ones
        sh(["gfortran", "-O0", "-w", "-fPIC", "-c", "functionmodule.f90"], d, "functionmodule", src)
        for part in ("der_state", "sensors", "visual"):
            f = "%s/%s_%s.f90" % (d, name, part)
            if not os.path.exists(f): continue
            so = "%s_%s.so" % (name, part)
            sh(self.CC + ["-o", so, os.path.basename(f), "functionmodule.o"], d, part, src)
            text = open(f, errors="replace").read()
            m = re.search(r"subroutine\s+%s_%s\s*\(([^)]*)\)" % (name, part), text)
            if not m: raise Fail("no-function", part, text)
            lib = ctypes.CDLL(os.path.join(d, so)); self.libs.append(lib)
            self.fun[part] = (getattr(lib, ("%s_%s_" % (name, part)).lower()), [a.strip() for a in m.group(1).replace("&", "").split(",")])
    def call(self, env, part, order, use_init):
        f, params = self.fun[part]; G = self.G
        y = Guarded(np.concatenate([env[n].ravel() for n in order]), "y"); bufs = [(y, True)]
        args, outs = [], []
        want = lib_order(G.sens if part == "sensors" else G.vis if part == "visual" else [], G.shape)
        for i, nm in enumerate(params):
            k = i - len(params) + len(want)
            if k >= 0:
                n = want[k]
                if nm != n: raise Fail("order", part, "%s where %s is expected" % (nm, n))
                b = Guarded(np.full(G.shape[n], UNSET), n); outs.append((n, b)); bufs.append((b, False)); args.append(b.ptr()); continue
            if nm == "y": args.append(y.ptr()); continue
            if nm == "yd" and part == "der_state":
                b = Guarded(np.full(y.n, UNSET), "yd"); outs.append((None, b)); bufs.append((b, False)); args.append(b.ptr()); continue
            if nm != "time" and nm not in G.inputs: raise Fail("signature", part, "%s is no input" % nm)
            b = Guarded(env[nm].T.copy(), nm); bufs.append((b, True)); args.append(b.ptr())
        f.restype = None
        f(*args)
        for b, same in bufs: b.check(same)
        if part == "der_state": return split(outs[0][1].val(), order, env, part)
        return {n: b.val().reshape(G.shape[n][::-1]).T for n, b in outs}

# ----------------------------------------------------------------------------------------------------------- MATLAB
class Mat(Target):
    """the function files, run by a small interpreter of MATLAB"""
    typ, gen = "m", "Matlab"
    has_visual = False
    ops = gprog.CORE + ["solve", "inv", "mpow"] + [o for o in gprog.EXTRA if o != "if"]
    refusal = "Is only possible for Symbols"
    def files(self, name): return [name + p for p in ("_der_state.m", "_sensors.m", "_inputs.m", "_sim.m")]
    def load(self, d, name, G):
        self.name, self.G, self.fun = name, G, {}
        for part in ("der_state", "sensors", "inputs"):
            f = "%s/%s_%s.m" % (d, name, part)
            if not os.path.exists(f): continue
            text = open(f, encoding="latin-1").read()
            try: head, body = matlab.parse(text)
            except matlab.Error as e:
                if "name longer" in str(e): raise TooLong()
                raise Fail("no-matlab", "%s: %s" % (part, re.sub(r"\d+", "", str(e))), text)
            if not head or head[0] != "%s_%s" % (name, part): raise Fail("function", part, "%s\n%s" % (head, text))
            self.fun[head[0]] = (head[1], head[2], body)
        for part in ("der_state", "inputs") + (("sensors",) if G.sens else ()):
            if "%s_%s" % (name, part) not in self.fun: raise Fail("no-function", part, str(sorted(self.fun)))
        sim = re.sub(r"%[^\n]*", "", open("%s/%s_sim.m" % (d, name), encoding="latin-1").read())
        for part in ("der_state", "sensors"):
            if ("%s_%s" % (name, part) in self.fun) != bool(re.search(r"\b%s_%s\b" % (name, part), sim)):
                raise Fail("script", part, "the function of the %s and the script that uses it do not go together\n%s" % (part, sim))
    def call(self, env, part, order, use_init):
        fun = dict(self.fun); n = "%s_%s" % (self.name, part)
        y = np.concatenate([env[x].ravel() for x in order]); t = env["time"]
        try:
            I = matlab.Interp(self.fun).call(self.name + "_inputs", [])
            have = sorted(I) if isinstance(I, dict) else []
            if have != sorted(self.G.inputs): raise Fail("inputs", part, "%s instead of %s" % (have, sorted(self.G.inputs)))
            if not use_init: fun[self.name + "_inputs"] = lambda: {k: env[k].copy() for k in self.G.inputs}
            # the solver passes a column; for the sensors a row will do as well
            yc = y.reshape(-1, 1) if part == "der_state" or t.item() * 10 % 1 < .5 else y.reshape(1, -1)
            r = matlab.Interp(fun).call(n, [t, yc])
        except matlab.Error as e: raise Fail("does-not-run", "%s: %s" % (part, re.sub(r"\d+", "", str(e))[:60]), "%s" % e)
        except np.linalg.LinAlgError as e: raise Fail("does-not-run", "%s: %s" % (part, e), "")
        if part == "der_state":
            if r.shape != (len(y), 1): raise Fail("length", part, "state derivative of shape %s for %d states" % (r.shape, len(y)))
            return split(r.ravel(), order, env, part)
        return dict(r)

# --------------------------------------------------------------------------------------------------------- Modelica
class Mo(Target):
    """the model, read and evaluated under the rules of the language"""
    typ, gen = "mo", "Modelica"
    visual_time = visual_inputs = True
    ops = gprog.CORE + ["solve", "inv", "mpow"] + gprog.EXTRA
    def files(self, name): return [name + ".mo"]
    def load(self, d, name, G):
        self.name, self.G = name, G
        text = open("%s/%s.mo" % (d, name), encoding="latin-1").read()
        try: m = self.m = modelica.Model(text); self.par = m.bindings(); st = m.starts(self.par)
        except modelica.Error as e: raise Fail("no-modelica", re.sub(r"\d+", "", str(e))[:60], "%s\n%s" % (e, text))
        if m.name != name: raise Fail("name", m.name, text)
        kinds = {"input": sorted(G.inputs), "output": sorted(G.sens + G.vis)}
        for k, w in kinds.items():
            have = sorted(n for n, x in m.decl.items() if x.kind == k)
            if k == "input" and set(have) <= set(w): continue           # an input nothing depends on is left out
            if have != w: raise Fail("declarations", k, "%s instead of %s\n%s" % (have, w, text))
            if any(m.decl[n].protected for n in have): raise Fail("declarations", "protected " + k, text)
        for n in G.order:
            if n not in m.decl or m.decl[n].kind != "var" or "start" not in st: pass
            if n not in m.decl: raise Fail("declarations", "state", "%s is missing\n%s" % (n, text))
            if n not in st: raise Fail("start", "none", "%s\n%s" % (n, text))
        for n, v in st.items():
            if np.shape(v) != m.decl[n].sh: raise Fail("start", "size", "%s %s\n%s" % (n, v, text))
        if G.P:
            for n in G.order:
                e = G.P.init.get(n)
                if e is None: continue
                w = gprog.ev(e, {}) if not gprog_syms(e) else None
                if w is not None and not np.array_equal(np.ravel(st[n]), w.ravel()): raise Fail("start", "value", "%s starts at %s instead of %s\n%s" % (n, st[n], w, text))
        self.memo = (None, None)
    def call(self, env, part, order, use_init):
        m = self.m
        if self.memo[0] is not env:
            val = lambda n: float(env[n][0, 0]) if not m.decl[n].sh else env[n].reshape(m.decl[n].sh)
            e = dict(self.par); e["time"] = float(env["time"][0, 0])
            for n in list(order) + self.G.inputs:
                if n in m.decl:
                    if int(np.prod(m.decl[n].sh)) != env[n].size: raise Fail("declarations", "size", "%s %s" % (n, m.decl[n].sh))
                    e[n] = val(n)
            try: r, left, size = m.solve(e, order)
            except modelica.Error as x: raise Fail("equations", re.sub(r"\d+", "", str(x))[:60], str(x))
            if left: raise Fail("equations", "unsolved", "%s" % (left[:2],))
            want = sum(int(np.prod(d.sh)) for d in m.unknowns().values())
            if size != want: raise Fail("equations", "count", "%d equations for %d unknowns" % (size, want))
            self.memo = (env, r)
        r = self.memo[1]
        sh = lambda v, n: np.asarray(v, float).reshape(self.G.shape.get(n, np.shape(v) if np.ndim(v) == 2 else (np.size(v), 1)))
        if part == "der_state":
            miss = [n for n in order if ("der", n) not in r]
            if miss: raise Fail("not-delivered", part, str(miss))
            return {"der_" + n: np.asarray(r["der", n], float).reshape(env[n].shape) for n in order}
        return {n: sh(r[n], n) for n in (self.G.sens if part == "sensors" else self.G.vis)}

def gprog_syms(e): return e.op == "sym" or any(gprog_syms(x) for x in e.a)

TARGETS = {"py": Py, "c": C, "f90": F90, "m": Mat, "mo": Mo}

# ------------------------------------------------------------------------------------------------------ the systems
def trans_deps(P):
    d = graphw.deps_of(P)
    memo = {}
    def go(n, stack=()):
        if n in memo: return memo[n]
        r = set()
        for x in d.get(n, ()):
            r.add(x)
            if x not in stack: r |= go(x, stack + (n,))
        memo[n] = r
        return r
    return {n: go(n) for n in d}

class Gp: pass

def make_prog(rng, T):
    mech = rng.random() < 0.6
    P = gprog.gen_prog(rng, T.ops, mech=mech, nvar=(2, 7), shapes=T.shapes, inputs=T.inputs if hasattr(T, "inputs") else True,
                       state_shapes=getattr(T, "state_shapes", ((1, 1), (2, 1), (3, 1))), depth=3, par_shapes=T.par_shapes,
                       sensor_shapes=getattr(T, "sensor_shapes", None), single_state=False)
    td = trans_deps(P)
    bad = set()
    if not T.visual_time: bad.add("time")
    if not T.visual_inputs: bad |= {x.p for x in P.ins}
    eqs = []
    for l, r, k in P.eqs:
        if k == "vis" and td[l[1]] & bad:
            P.vars[l[1]] = ("sen", P.vars[l[1]][1]); k = "sen"
        eqs.append((l, r, k))
    P.eqs = eqs
    P.ctl = []
    if T.controllers and rng.random() < 0.3:
        for x in P.ins:
            users = [n for n in P.order if P.vars[n][0] in ("sen", "vis") and x.p in td.get(n, ())]
            if users or P.vars[x.p][0] != "in": continue
            P.vars[x.p] = ("ctl", P.vars[x.p][1]); P.ctl.append(x.p); P.init.pop(x.p, None)
    return P

def build(P, rng):
    g = S.Graph()
    B = gprog.Builder(S)
    B.sym["time"] = g.getVariable("time")
    names = list(P.order); rng.shuffle(names)
    for n in names:
        kind, sh = P.vars[n]
        comment = "ctlmod:c_" + n if kind == "ctl" else rng.choice(["", "", "a comment", "Unit: [m/s]"])
        B.sym[n] = g.addVariable(n, gprog.lib_shape(sh), graphw.KIND["var" if kind == "dst" else kind], graphw.initial(P, n, B), comment)
    eqs = list(P.eqs); rng.shuffle(eqs)
    for lhs, rhs, kind in eqs: graphw.add_eq(g, B, lhs, rhs)
    return g, B

def state_order(P):
    """the order of the state vector: scalars before vectors, shorter before longer ones, then by name"""
    return sorted([s.p for s in P.sts], key=lambda n: (len(gprog.lib_shape(P.vars[n][1])), P.vars[n][1], n))

def write_ctl(P, d, rng):
    if not P.ctl: return
    with open(d + "/ctlmod.py", "w") as f:
        f.write("import numpy\nVAL = {}\nLOG = []\n")
        for n in P.ctl:
            f.write("def c_%s(t, y, sensors):\n    LOG.append(('%s', t, y.copy(), dict(sensors)))\n    return VAL['%s']\n" % (n, n, n))

def compare(out, got, exp, tol, part, src=""):
    miss = [n for n in exp if n not in got]
    if miss: raise Fail("not-delivered", part, "%s missing from the %s, got %s" % (miss, part, sorted(got)))
    more = [n for n in got if n not in exp]
    if more: raise Fail("extra", part, "%s delivered by %s, expected %s" % (more, part, sorted(exp)))
    for n in exp:
        v, r = got[n], exp[n]
        if v.shape != r.shape: raise Fail("shape", part, "%s has shape %s, expected %s" % (n, v.shape, r.shape))
        d = float(np.max(np.abs(v - r))) if r.size else 0.0
        if not d <= tol[n]:
            raise Fail("value", part, "%s = %s, expected %s (diff %g, tolerance %g)\n%s" % (n, v.tolist(), r.tolist(), d, tol[n], src))
        out.inc("comparisons")

def sources(d, files): return "\n".join("--- %s\n%s" % (f, open(d + "/" + f, errors="replace").read()) for f in files if os.path.exists(d + "/" + f))

def prog_case(T):
    def case(out, rng, idx, tier):
        P = make_prog(rng, T)
        P.use_init = rng.random() < 0.2
        pts = gprog.reference(P, rng)
        if not pts: out.inc("undefined programs"); return
        g, B = build(P, rng)
        opt = rng.random() < 0.5
        d = tempfile.mkdtemp(dir=os.getcwd())
        name = rng.choice(NAMES)
        try:
            with Quiet() as q:
                g.buildGraph(opt)
                g.writeCode(T.typ, name, d, **T.kw)
            sens = [n for n in P.order if P.vars[n][0] == "sen"]; vis = [n for n in P.order if P.vars[n][0] == "vis"]
            G = Gp(); G.P, G.order, G.sens, G.vis = P, state_order(P), sens, vis
            G.inputs = [x.p for x in P.ins if P.vars[x.p][0] == "in"]; G.ctl = P.ctl; G.shape = {n: P.vars[n][1] for n in P.order}
            G.td = trans_deps(P)
            if T.refusal and re.search(T.refusal, q.text): out.inc("refused with a message"); return
            if "rror" in q.text: raise Fail("error-reported", re.sub(r"\d+", "", q.text.split("rror", 1)[1][:60]), q.text + sources(d, T.files(name)))
            write_ctl(P, d, rng)
            T.load(d, name, G)
            for e0, ref, tol in pts:
                if P.ctl and T.ctl:
                    cm = T.ctl; cm.VAL.update({n: graphw.as_lib(e0[n]) for n in P.ctl}); cm.LOG.clear()
                src = sources(d, T.files(name))
                parts = ["der_state"] + (["sensors"] if sens else []) + (["visual"] if vis and T.has_visual else [])
                for part in parts:
                    got = T.call(e0, part, G.order, P.use_init)
                    names = ["der_" + n for n in G.order] if part == "der_state" else (sens if part == "sensors" else vis)
                    compare(out, got, {n: ref[n] for n in names}, tol, part, src)
                    out.inc("calls")
                if P.ctl and T.ctl:
                    for n, t, y, s in cm.LOG:
                        if t != e0["time"][0, 0] or not np.array_equal(y, np.concatenate([e0[x].ravel() for x in G.order])): raise Fail("controller", "arguments", "%s" % ((n, t, y),))
                        compare(out, {k: graphw.val(v) for k, v in s.items()}, {k: ref[k] for k in sens}, tol, "sensors given to the controller", src)
                    if len(cm.LOG) > len(P.ctl): raise Fail("controller", "called twice", "%s of %s" % (cm.LOG, P.ctl))
                    out.inc("controller calls", len(cm.LOG))
        finally:
            T.close(); shutil.rmtree(d, ignore_errors=True)
        if len(G.order) > 1: out.inc("distinct")
        out.inc("programs"); out.group("optimise", str(opt)); out.group("states", " ".join("%dx%d" % P.vars[n][1] for n in G.order))
        for l, r, k in P.eqs: count_ops(out, r)
        out.sample({"idx": idx, "equations": len(P.eqs), "states": G.order, "sensors": sens, "visual": vis})
    return case

def col(v):
    v = np.asarray(v, float)
    return v.reshape(1, 1) if v.ndim == 0 or v.size == 1 else v.reshape(-1, 1) if v.ndim == 1 else v

def graph_vars(L, kind, shape):
    names = []
    for v in L.w.graph.getVariables(kind):
        sh_ = v.shape(); n = str(v); names.append(n)
        shape[n] = (1, 1) if not sh_ else (sh_[0], 1) if len(sh_) == 1 else tuple(sh_)
    return names

def mech_case(T):
    """mechanisms entered through MbsSystem, generated with genCode, compared with the mechanics computed from the same data"""
    import mechw
    from mechgen import good_model, add_loads, random_state, random_inputs
    def case(out, rng, idx, tier):
        small = rng.random() < .35
        m = good_model(rng, maxbodies=2 if small else 3, maxdof=T.maxdof if not small else 2)
        if rng.random() < .6: add_loads(rng, m, rng.choice([1, 2]))
        sg = mechw.SG(rng, m)
        for _ in range(rng.choice([0, 2, 4])): sg.add([k for k in mechw.SENS if k != "Graphic"])
        for k in range(rng.choice([0, 1, 2])):
            a, n = mechw.any_frame(rng, m), "gr%d" % k
            sg.list.append(dict(kind="Visual", names=["r_" + n, "T_" + n], enter=lambda L, a=a, n=n: L.w.addGraphicSensors(L.at(a), n, category=S.VarKind.Graphics),
                                value=lambda X, a=a: [X.at(a).r, X.at(a).R]))
        gens = mechw.gens_for(m, rng, .4 if small else 0)
        gen = rng.choice(gens); o = mechw.opts_for(rng, gen); o.pop("simplify", None)
        L = mechw.generate(m, gen, o, before=lambda L: [x["enter"](L) for x in m.loads + sg.list])
        order = mechw.state_order(L, m)
        shapes = dict(m.inputs); shapes.update(getattr(m, "inputs2", {}))
        G = Gp(); G.P, G.ctl, G.order = None, [], ["q", "qd"]
        G.inputs = list(shapes); G.shape = {n: (max([1] + list(sh_ or ())), 1) for n, sh_ in shapes.items()}
        d = tempfile.mkdtemp(dir=os.getcwd()); name = rng.choice(NAMES)
        try:
            with Quiet() as qt: getattr(L.w.genCode, T.gen)(name, d, **T.kw)
            if T.refusal and re.search(T.refusal, qt.text): out.inc("refused with a message"); return
            if re.search("Error", qt.text): raise Fail("error-reported", re.sub(r"\d+", "", qt.text.split("Error", 1)[1][:60]), qt.text + sources(d, T.files(name)))
            loaded = False
            for _ in range(3):
                q, qd = random_state(rng, m.ndof()); inp = random_inputs(rng, m)
                if not mechw.far_apart(m, m.kin(q, qd, np.zeros(m.ndof()))): continue
                qdd, M, h, _l = m.acc(q, qd, inp)
                if np.linalg.cond(M) > 1e6: continue
                X = mechw.State(m, q, qd, qdd, inp)
                sens, vis = {}, {}
                for x in sg.list:
                    for n, v in zip(x["names"], x["value"](X)): (vis if x["kind"] == "Visual" else sens)[n] = None if v is None else col(v)
                if not loaded:
                    if any(v is None for v in sens.values()): continue
                    G.sens, G.vis = graph_vars(L, S.VarKind.Sensor, G.shape), graph_vars(L, S.VarKind.Graphics, G.shape)
                    if set(sens) - set(G.sens) or set(vis) - set(G.vis): raise Fail("not-delivered", "graph", "%s %s" % (set(sens) - set(G.sens), set(vis) - set(G.vis)))
                    try: T.load(d, name, G); loaded = True
                    except TooLong: out.inc("names too long for the language"); return
                env = {"time": col(.37), "q": col(q[order]), "qd": col(qd[order])}
                for n, v in inp.items(): env[n] = col(v)
                exp = {"der_q": env["qd"], "der_qd": col(qdd[order])}
                tol = 1e-9 * max(10, np.linalg.cond(M)) * (1 + np.max(np.abs(h)))
                src = json.dumps(mechw.describe(m), default=str)[:1500] + sources(d, T.files(name))
                for part, want in (("der_state", exp), ("sensors", sens), ("visual", vis)):
                    if not want or (part == "visual" and not T.has_visual): continue
                    got = T.call(env, part, G.order, False)
                    got = {n: v for n, v in got.items() if n in want or n not in G.shape}     # the library adds auxiliary sensors
                    want = {n: (got.get(n) if v is None else v) for n, v in want.items()}
                    compare(out, got, want, {n: tol * (1 + (np.max(np.abs(v)) if v is not None else 0)) for n, v in want.items()}, part, src)
                    out.inc("calls")
        finally:
            T.close(); shutil.rmtree(d, ignore_errors=True)
        if m.ndof() > 1: out.inc("distinct")
        out.inc("mechanisms"); out.group("generators", gen); out.group("dofs", str(m.ndof()))
        for x in sg.list: out.group("sensors", x["kind"])
        out.sample({"idx": idx, "dofs": [j["dofs"] for j in m.joints], "sensors": list(G.sens) if loaded else [], "generator": gen})
    return case

def count_ops(out, n):
    st = [n]
    while st:
        x = st.pop(); out.group("operators", x.op); st.extend(x.a)

Target.has_visual = True

if __name__ == "__main__":
    mode = sys.argv[1]
    T = TARGETS[mode.split(":")[0]]()
    run("writer " + mode, (mech_case if mode.endswith(":mech") else prog_case)(T), sys.argv[2:])
