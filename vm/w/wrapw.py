"""Worker for W08, compiled models called from Python: wrapw.py LANG SEED START COUNT PROGRESS TIER

The C or Fortran code of a generated model is written together with its Python wrapper, compiled by the library's own
compile function and called through the wrapper, as the viewer does it."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import gprog, graphw
from worker import run, Fail
import writerw
from writerw import Quiet, Target, split, sources

_count = [0]
class Wrapped(Target):
    kw = {"pymbs_wrapper": "True"}
    loose = 1e3              # compiled with -Ofast: the order of operations is the compiler's
    def load(self, d, name, G):
        from pymbs.ui import compile as comp
        self.name, self.G, self.d = name, G, d
        for k in list(sys.modules):
            if k.startswith(name + "_") or k == "ctlmod": del sys.modules[k]
        importlib.invalidate_caches()
        src = sources(d, self.files(name)); self.mods = {}
        parts = ["der_state"] + (["sensors"] if G.sens else []) + (["visual"] if G.vis else [])
        with Quiet() as q:
            for p in parts: getattr(comp, self.compiler)("%s_%s" % (name, p), d)
        importlib.invalidate_caches()
        sys.path.insert(0, d)
        try:
            for p in parts:
                try: self.mods[p] = importlib.import_module("%s_%s_%s" % (name, p, self.suffix))
                except Exception as e:
                    if "is too long" in q.text: raise writerw.TooLong()      # a Fortran name has at most 63 characters
                    raise Fail("does-not-import", "%s %s" % (p, type(e).__name__), "%s\n%s\n%s" % (e, q.text[-1500:], src))
        finally: sys.path.remove(d)
        self.ctl = sys.modules.get("ctlmod")
    def given(self, v): return float(v[0, 0]) if v.size == 1 else v.ravel().copy() if v.shape[1] == 1 else v.copy()
    def call(self, env, part, order, use_init):
        G = self.G; m = self.mods[part]
        if not use_init:
            for q in self.mods.values():
                if not hasattr(q, "_inputs"): continue
                mine = [k for k in G.inputs if k in q._inputs]; h = len(mine) // 2 if float(env["time"][0, 0]) * 10 % 1 < .5 else 0
                for ks in (mine[:h], mine[h:]): q.setInputs({k: self.given(env[k]) for k in ks})
        y = np.concatenate([env[n].ravel() for n in order]); y0 = y.copy(); t = float(env["time"][0, 0])
        try:
            if part == "der_state": r = m.ode_int(t, y)
            else:
                if t * 100 % 1 < .4: y = list(y)
                r = m.graphSensors(t, y) if part == "sensors" else m.graphVisualSensors(y)
        except Exception as e: raise Fail("does-not-run", "%s %s" % (part, type(e).__name__), "%s\n%s" % (e, open(m.__file__).read()))
        if t * 1000 % 1 < .5:            # whole numbers, as they are typed in
            f = {"der_state": lambda z: m.ode_int(t, z), "sensors": lambda z: m.graphSensors(t, z), "visual": lambda z: m.graphVisualSensors(z)}[part]
            z = [int(round(v)) for v in y0]; forms = [np.array(z, float), np.array(z)] + ([] if part == "der_state" else [z])
            vals = []; log = list(self.ctl.LOG) if self.ctl else None
            for q in forms:
                v = f(q); v = v if isinstance(v, dict) else {"yd": v}
                vals.append(np.concatenate([np.ravel(np.array(v[k], float)) for k in sorted(v)]))
            for q, v in zip(forms, vals):
                if not np.array_equal(v, vals[0], equal_nan=True): raise Fail("value", part + " whole numbers", "%s for the state %r, %s for %r" % (v, q, vals[0], forms[0]))
            if self.ctl: self.ctl.LOG[:] = log
            _count[0] += 1
        if not np.array_equal(y, y0): raise Fail("state-changed", part, "the state vector passed in was modified")
        if part == "der_state": return split(np.asarray(r), order, env, part)
        out = {}
        for k, v in r.items():
            v = np.array(v, float); s = G.shape.get(k, v.shape)
            if v.size != np.prod(s) or (min(s) > 1 and v.shape != tuple(s)): raise Fail("shape", part, "%s has shape %s, expected %s" % (k, v.shape, s))
            out[k] = v.reshape(s)
        return out

class PyC(Wrapped):
    typ, gen, suffix, compiler = "c", "C", "CWrapper", "compileC"
    controllers = True
    ops, par_shapes = writerw.C.ops, writerw.C.par_shapes
    def files(self, name): return [name + p for p in ("_der_state.c", "_sensors.c", "_visual.c", "_der_state_CWrapper.py", "_sensors_CWrapper.py", "_visual_CWrapper.py")]

class PyF(Wrapped):
    typ, gen, suffix, compiler = "f90", "Fortran90", "F90Wrapper", "compileF90"
    ops, refusal = writerw.F90.ops, writerw.F90.refusal
    def files(self, name): return [name + p for p in ("_der_state.f90", "_sensors.f90", "_visual.f90", "_der_state_F90Wrapper.py", "_sensors_F90Wrapper.py", "_visual_F90Wrapper.py")]

if __name__ == "__main__":
    lang, _, kind = sys.argv[1].partition(":")
    T = {"c": PyC, "f90": PyF}[lang]()
    one = (writerw.mech_case if kind == "mech" else writerw.prog_case)(T)
    def case(out, rng, idx, tier):
        _count[0] = 0
        one(out, rng, idx, tier)
        out.inc("whole_number_states", _count[0])
    run("wrapper " + sys.argv[1], case, sys.argv[2:], limit_s=300)
