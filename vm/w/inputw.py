"""A01: refused calls and the objects of the caller.
A script of valid calls that builds a model is run twice.  The twin gets only the valid calls; the other one also gets invalid
calls in between, most of them broken variants of the call that follows (the same names).  Every invalid call has to raise, at once
or at the latest when the equations are generated; if all were refused at once, the script must go through and the equations must
have the same values as those of the twin.  All lists, matrices, dictionaries that are passed are compared with copies."""
import copy, keyword, math, re, sys, os, zlib
import numpy as np
from worker import *
from mech import quiet, Equations
import pymbs.symbolics as S
from pymbs.symbolics import VarKind, Matrix, Basic
from pymbs.input import MbsSystem, eye, rot_mat, zeros
import pymbs.input as PI

DOFS = ["Tx", "Ty", "Tz", "Rx", "Ry", "Rz"]
BADNAMES = ["", "1abc", "a b", "a-b", "a.b", "x, y", "x[0]", "lambda", "a\nb", "ü+", "a=b", "(a)", "a; b", 5, None.__class__, ["n"], b"n"]

class Call:
    """owner path (e.g. "w.addLoad"), method, arguments; values may be Ref (results of earlier calls)"""
    def __init__(c, path, args, store=None, bad=(), kind=None):
        c.path, c.args, c.store, c.bad, c.kind = path, args, store, list(bad), kind or path.split(".")[-1]
class Ref:
    def __init__(r, name, sub=None): r.name, r.sub = name, sub
    def __repr__(r): return "<%s%s>" % (r.name, "" if r.sub is None else ".%s" % r.sub)
class Fn:
    """a value made from earlier results: f(env)"""
    def __init__(r, f, text): r.f, r.text = f, text
    def __repr__(r): return r.text
def resolve(env, x):
    if isinstance(x, Ref):
        v = env[x.name]
        if x.sub is None: return v
        return v[x.sub] if isinstance(x.sub, int) else getattr(v, x.sub)
    if isinstance(x, Fn): return x.f(env)
    if isinstance(x, list): return [resolve(env, y) for y in x]
    return x

# ---- what a passed object looks like, to compare it before and after
def picture(v, depth=0):
    if isinstance(v, (list, tuple)): return (type(v).__name__, [picture(x, depth + 1) for x in v], id(v))
    if isinstance(v, dict): return ("dict", [(k, picture(x, depth + 1)) for k, x in v.items()], id(v))
    if isinstance(v, np.ndarray): return ("array", v.shape, v.tolist())
    if isinstance(v, Matrix): return ("Matrix", tuple(v.shape()), str(v))
    if isinstance(v, Basic): return ("Basic", tuple(v.shape()), meaning(str(v)))      # expressions may be simplified where they are
    if isinstance(v, (int, float, str, bool, type(None))): return (type(v).__name__, repr(v))
    return ("object", id(v))

def meaning(t):
    env = {n: zlib.crc32(n.encode()) % 1000 / 700. + .3 for n in re.findall(r"[A-Za-z_]\w*", t)}
    env.update({n: getattr(math, n) for n in ("sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sqrt") if n in env})
    try: return "%.9g" % eval(t, {}, env)
    except Exception: return t

def numeric(v):
    if isinstance(v, (list, tuple)): return all(isinstance(x, (int, float, str)) or numeric(x) for x in v)
    if isinstance(v, Matrix): return not any(c.isalpha() for c in str(v).replace("matrix", "").replace("dtype=float", "").replace("e-", ""))
    return isinstance(v, (np.ndarray, dict))
class Model:
    def __init__(s): s.env = {}; s.late = []; s.passed = []
    def call(s, c, args=None):
        args = c.args if args is None else args
        a = {k: resolve(s.env, v) for k, v in args.items()}
        before = {k: picture(v) for k, v in a.items()}
        path = c.path.split(".")
        o = s.env[path[0]]
        try:
            for p in path[1:]: o = getattr(o, p)
            r = o(**a)
            return r
        finally:
            for k, v in a.items():
                if picture(v) != before[k]:
                    raise Fail("argument", "changed:%s.%s" % (c.kind, k), "%s(%s=...): before %s after %s" % (c.path, k, before[k], picture(v)))
                if numeric(v): s.passed.append((c, k, v, before[k]))
    def unchanged(s):
        """the arguments again, after the generation"""
        for c, k, v, b in s.passed:
            if picture(v) != b: raise Fail("argument", "changed by the generation:%s.%s" % (c.kind, k), "%s(%s=...): before %s after %s" % (c.path, k, b, picture(v)))

# ------------------------------------------------------------------ scripts
class Script:
    def __init__(s, rng):
        s.rng = rng; s.calls = []; s.names = set(); s.frames = []; s.bodies = []; s.joints = []; s.params = []; s.syms = {(): [], (3,): []}
        s.taken = {}; s.k = 0; s.free = []; s.jointload = set(); s.jointsens = set(); s.world_frames = ["w"]; s.tree = {}; s.parent = {}; s.sensors = []
    def nm(s, pre):
        while True:
            s.k += 1; n = pre + s.rng.choice(["", "_", "A", "x_"]) + str(s.k)
            if n not in s.names: s.names.add(n); return n
    def num(s, lo=-1, hi=1): return s.rng.choice([-2, -1, 1, 2, 3]) if s.rng.random() < .2 else round(s.rng.uniform(lo, hi), 3)
    def pos(s): return s.rng.choice([1, 2]) if s.rng.random() < .15 else round(s.rng.uniform(.2, 2), 3)
    def add(s, path, args, store=None, bad=(), kind=None): s.calls.append(Call(path, args, store, bad, kind))
    def badname(s, key="name", used=None):
        """variants of the name argument"""
        r = s.rng; out = []
        for b in r.sample(BADNAMES, 3): out.append(("name %r" % (b,), {key: b}))
        u = used if used is not None else s.taken.get("name", [])
        if u: out.append(("used name", {key: r.choice(u)}))
        return out
    def prefix(s, key="name"):
        """for names and symbols that get a prefix or a suffix"""
        return [("%s %r" % ("name" if key == "name" else "symbol", b), {key: b}) for b in s.rng.sample(["a b", "a-b", "a.b", "x, y", "x[0]", "a=b", "ü+", "a; b"], 2)]
    def badsym(s, key):
        r = s.rng; out = [("symbol %r" % (b,), {key: b, "name": s.nm("sy")}) for b in r.sample(BADNAMES, 2)]
        u = s.taken.get("sym", [])
        if u: out.append(("used symbol", {key: r.choice(u), "name": s.nm("sy")}))
        return out
    def took(s, kind, n): s.taken.setdefault(kind, []).append(n)
    def vec(s): return [s.num() for _ in range(3)]
    def scalar(s):
        r = s.rng
        return s.num(.3, 2) if not s.params or r.random() < .5 else Ref(r.choice(s.params))
    # --- elements
    def param(s):
        r = s.rng; n = s.nm("p"); k = r.random()
        if k < .5: v = s.pos()
        elif k < .7 and s.params: p = r.choice(s.params); v = Fn(lambda e, p=p: 2*e[p] + 1, "2*%s+1" % p)
        elif k < .85: v = s.vec()
        else: v = Fn(lambda e, a=s.vec(): Matrix(a), "Matrix")
        scalar = not isinstance(v, list) and not (isinstance(v, Fn) and v.text == "Matrix")
        bad = (s.badsym("symbol_str") if scalar else s.prefix("symbol_str")) + [b for b in s.badname(used=[]) if b[1]["name"] != "a b"] + [("value None", dict(defaultValue=None)), ("value text", dict(defaultValue="abc")), ("list of 4", dict(defaultValue=[1, 2, 3, 4])),
              ("list with text", dict(defaultValue=[1., 2., "x"])), ("positive but below zero", dict(defaultValue=-1.5, positive=True)), ("symbol I", dict(symbol_str="I")),
              ("value dict", dict(defaultValue={})), ("no value", dict(defaultValue=Fn(lambda e: object(), "object")))]
        if scalar: bad.append(("positive and negative", dict(positive=True, negative=True)))
        if s.params: bad.append(("list with used part", dict(defaultValue=[1., 2., 3.], symbol_str="PP")) if "PP_z" in s.taken.get("sym", []) else ("tuple of 2", dict(defaultValue=(1., 2.))))
        s.add("w.addParam", dict(symbol_str=n, defaultValue=v), n, bad)
        if scalar: s.params.append(n); s.took("sym", n)
        else:
            for x in "xyz": s.took("sym", n + "_" + x)
    def clash(s):
        """a parameter named like the last part of a vector parameter that comes later"""
        n = s.nm("cl")
        s.add("w.addParam", dict(symbol_str=n + "_z", defaultValue=1.5), n + "_z", []); s.params.append(n + "_z"); s.took("sym", n + "_z")
        s.add("w.addInput", dict(symbol_str=n + "_y", shape=None), n + "_iy", []); s.took("sym", n + "_y")
        m = s.nm("cv")
        s.add("w.addParam", dict(symbol_str=m, defaultValue=s.vec()), m, [("vector with a used part", dict(symbol_str=n))])
    def body(s):
        r = s.rng; n = s.nm("body")
        I = [[s.pos() if i == j else 0. for j in range(3)] for i in range(3)]
        k = r.random()
        iv = I if k < .5 else ([I[0][0], 0., I[1][1], 0., 0., I[2][2]] if k < .7 else Fn(lambda e, I=I: Matrix(I), "Matrix(I)"))
        cg = s.vec() if r.random() < .7 else Fn(lambda e, a=s.vec(): Matrix(a), "Matrix(cg)")
        mass = s.scalar()
        bad = s.badname(used=s.taken.get("body", [])) + [("mass text", dict(mass="heavy")), ("mass None", dict(mass=None)), ("mass list", dict(mass=[1., 2.])), ("cg of 2", dict(cg=[1., 2.])), ("cg text", dict(cg="abc")), ("cg of 4", dict(cg=[1., 2., 3., 4.])),
               ("inertia 2x2", dict(inertia=[[1., 0.], [0., 1.]])), ("inertia of 4", dict(inertia=[1., 2., 3., 4.])), ("inertia text", dict(inertia="diag")), ("inertia ragged", dict(inertia=[[1., 0., 0.], [0., 1.], [0., 0., 1.]])), ("cg None", dict(cg=None)),
               ("cg matrix", dict(cg=[[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]])), ("inertia vector", dict(inertia=[1., 2., 3.])), ("mass vector", dict(mass=Fn(lambda e: Matrix([1., 2., 3.]), "Matrix")))]
        s.add("w.addBody", dict(mass=mass, cg=cg, inertia=iv, name=n), n, bad); s.took("body", n); s.took("name", n)
        s.bodies.append(n)
        for _ in range(r.choice([0, 1, 2])): s.frame(n)
    def frame(s, b):
        r = s.rng; n = s.nm("cs")
        own = [f for f in s.frames if f[0] == b] or []
        par = b if not own or r.random() < .6 else r.choice(own)[1]
        args = dict(name=n, p=s.vec())
        if r.random() < .5: args["R"] = Fn(lambda e, a=s.num(), x=r.choice("xyz"): rot_mat(a, x), "rot_mat")
        bad = [("name %r" % (x,), dict(name=x)) for x in r.sample(BADNAMES, 2)] + [("p of 2", dict(p=[1., 2.])), ("p text", dict(p="origin")), ("p None", dict(p=None)), ("R 2x2", dict(R=[[1., 0.], [0., 1.]])), ("R text", dict(R="x")), ("p 3x3", dict(p=[[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]])),
               ("R vector", dict(R=[1., 0., 0.])), ("name of an attribute", dict(name="addFrame" if b == par and b == "w" else "name"))]
        used = [f for f in s.frames if f[2] == par]
        if used: bad.append(("used name", dict(name=r.choice(used)[3])))
        s.add("%s.addFrame" % par, args, n, bad); s.frames.append((b, n, par, n))
    def at(s, b):
        f = [x[1] for x in s.frames if x[0] == b] + [b]
        return Ref(s.rng.choice(f))
    def any(s, but=None):
        r = s.rng; bs = [b for b in s.bodies + ["w"] if b != but]; b = r.choice(bs); return b, s.at(b)
    def joint(s, child, par):
        r = s.rng; n = s.nm("j"); k = r.random()
        d = r.choice(DOFS) if k < .35 else [r.choice(DOFS)] if k < .5 else r.choice([["Rx", "Ry"], ["Tx", "Ry", "Tz"], ["Rz", "Tx"], ["Tx", "Ty"], ["Rx", "Rz", "Ty"]]) if k < .92 or par == "w" else []
        d = list(d) if isinstance(d, list) else d
        nd = 1 if isinstance(d, str) else len(d)
        args = dict(CS1=s.at(par), CS2=s.at(child), dofList=d, name=n)
        if nd and r.random() < .6: args["startVals"] = [s.num() for _ in range(nd)] if nd > 1 or r.random() < .5 else s.num()
        if nd and r.random() < .4: args["startVals_d"] = [s.num() for _ in range(nd)]
        if nd > 1: bad_sv = [("start values: too few", dict(startVals=[.1]*(nd - 1))), ("start values: too many", dict(startVals=[.1]*(nd + 1))), ("a text among the start values", dict(startVals=[.1]*(nd - 1) + ["x"])),
                             ("velocities: text", dict(startVals_d=["x"] + [.1]*(nd - 1))), ("dof in the middle", dict(dofList=[d[0], "Qx"] + d[1:])), ("last dof", dict(dofList=d[:-1] + ["rx"]))]
        else: bad_sv = [("start value text", dict(startVals="x")), ("two start values", dict(startVals=[.1, .2])), ("dof name", dict(dofList="Sx")), ("dof number", dict(dofList=3)), ("velocities: text", dict(startVals_d="fast"))]
        two = r.choice([["Rx", "Ty"], ["Tz", "Rz", "Rx"]])
        bad = s.badname(used=s.taken.get("joint", [])) + bad_sv + [("joint within one body", dict(CS1=s.at(child), dofList=two, startVals=None, startVals_d=None)), ("CS1 None", dict(CS1=None)), ("CS2 text", dict(CS2="body")), ("CS2 a number", dict(CS2=1.)),
              ("joint within one body", dict(CS1=Ref(child), CS2=Ref(child), dofList="Rx", startVals=None, startVals_d=None)), ("seven dofs", dict(dofList=DOFS + ["Rx"], startVals=None, startVals_d=None)), ("repeated dof", dict(dofList=["Tx", "Ry", "Tx"], startVals=None, startVals_d=None))]
        used = [b for b in s.tree if s.tree[b]]
        if used:
            u = r.choice(used)
            if u != par: bad += [("second joint to a body", dict(CS2=s.at(u), dofList=two, startVals=None, startVals_d=None)), ("second joint to a body", dict(CS2=s.at(u), dofList="Tx", startVals=None, startVals_d=None))]
        bad.append(("joint to the world", dict(CS2=Ref("w")) if par != "w" else dict(CS1=Ref("w"), CS2=Ref("w"))))
        s.add("w.addJoint", args, n, bad); s.took("joint", n); s.took("name", n); s.tree[child] = True; s.parent[child] = par
        if nd:
            for i in range(nd): s.joints.append(Ref(n) if nd == 1 else Ref(n, i))
    def inp(s):
        r = s.rng; n = s.nm("u"); sh = r.choice([(), (), (3,)])
        bad = s.badsym("symbol_str") + s.badname(used=[]) + [("shape list", dict(shape=[3])), ("shape text", dict(shape="3")), ("limits tuple", dict(limits=(1, 2))), ("limits of 3", dict(limits=[1, 2, 3])), ("shape of text", dict(shape=("a",))), ("negative shape", dict(shape=(-1,))), ("shape number", dict(shape=3)), ("limits number", dict(limits=1))]
        a = dict(symbol_str=n, shape=sh)
        if r.random() < .3: a["limits"] = [-2, 2]
        s.add("w.addInput", a, n, bad); s.syms[sh].append(n); s.took("sym", n); s.free.append((n, sh))
    def expression(s):
        r = s.rng; n = s.nm("x"); sh = r.choice([(), (3,)])
        pool = s.syms[sh]
        if pool: a = r.choice(pool); c = s.num(); v = Fn(lambda e, a=a, c=c: c*e[a], "%s*%s" % (c, a))
        else: v = s.num() if sh == () else s.vec()
        bad = s.badsym("symbol_str") + s.badname(used=[]) + [("exp text", dict(exp="1+1")), ("exp None", dict(exp=None)), ("exp dict", dict(exp={})), ("limits of 3", dict(limits=[1, 2, 3])), ("limits tuple", dict(limits=(1, 2))), ("limits number", dict(limits=3)), ("list with text", dict(exp=[1., "a", 2.])),
              ("ragged list", dict(exp=[[1., 2.], [3.]])), ("empty list", dict(exp=[])), ("category text", dict(category="Sensor")), ("exp object", dict(exp=Fn(lambda e: object(), "object"))), ("category none", dict(category=None))]
        s.add("w.addExpression", dict(symbol_str=n, exp=v), n, bad); s.syms[sh].append(n); s.took("sym", n)
    def load(s):
        r = s.rng; k = r.choice(["PtPForce", "CmpForce", "CmpTorque", "Joint"]); n = s.nm("L")
        wrong = [("symbol text", dict(symbol="F")), ("symbol None", dict(symbol=None)), ("symbol number", dict(symbol=3.)), ("list of 2", dict(symbol=[1., 2.])), ("list with text", dict(symbol=[1., 2., "x"])), ("list of 4", dict(symbol=[1., 2., 3., 4.])), ("empty list", dict(symbol=[]))]
        if k == "Joint":
            free = [j for j in s.joints if repr(j) not in s.jointload]
            if not free or not s.syms[()]: return
            j = r.choice(free); v = Ref(r.choice(s.syms[()]))
            if r.random() < .4: v = Fn(lambda e, a=v.name: 2*e[a], "2*" + v.name)
            bad = s.badname(used=s.taken.get("load", [])) + wrong[:3] + [("joint None", dict(joint=None)), ("joint body", dict(joint=Ref(s.bodies[0]))), ("joint text, expression", dict(joint="j", symbol=Fn(lambda e, a=s.syms[()][0]: 2*e[a], "2*u")))]
            if s.syms[(3,)]: bad.append(("vector", dict(symbol=Ref(s.syms[(3,)][0]))))
            if s.jointload: bad.append(("second load of a joint", dict(joint=r.choice([x for x in s.joints if repr(x) in s.jointload]), symbol=Fn(lambda e, a=s.syms[()][0]: 2*e[a], "2*u"))))
            s.jointload.add(repr(j))
            s.add("w.addLoad.Joint", dict(symbol=v, joint=j, name=n), None, bad, "load.Joint"); s.took("name", n); s.took("load", n); return
        b1, f1 = s.any(); b2, f2 = s.any(b1)
        sh = () if k == "PtPForce" else (3,)
        if s.syms[sh]: v = Ref(r.choice(s.syms[sh]))
        elif sh == (3,): v = s.vec()
        else: return
        if sh == (3,) and r.random() < .4: v = [Ref(r.choice(s.syms[()])) if s.syms[()] and r.random() < .5 else s.num() for _ in range(3)]
        a = dict(symbol=v, CS1=f1, CS2=f2, name=n)
        if k != "PtPForce" and r.random() < .4: a["CSref"] = s.any()[1]
        bad = s.badname(used=s.taken.get("load", [])) + wrong + [("CS1 None", dict(CS1=None)), ("CS2 text", dict(CS2="b")), ("CS1 a joint", dict(CS1=s.joints[0]) if s.joints else dict(CS1=4))]
        if isinstance(v, list): bad += [("CS2 None", dict(CS2=None)), ("CS1 number", dict(CS1=1))]
        other = s.syms[(3,) if sh == () else ()]
        if other: bad += [("wrong shape", dict(symbol=Ref(r.choice(other))))] * 2
        if k != "PtPForce": bad.append(("CSref text", dict(CSref="world")))
        s.add("w.addLoad." + k, a, None, bad, "load." + k); s.took("name", n); s.took("load", n)
    def sensor(s):
        r = s.rng; k = r.choice(["Distance", "Position", "Velocity", "Acceleration", "Orientation", "AngularVelocity", "AngularAcceleration", "Energy", "CenterofMass", "Joint"]); n = s.nm("s"); y = s.nm("y_")
        two = [("CS1 None", dict(CS1=None)), ("CS2 text", dict(CS2="b")), ("CS2 number", dict(CS2=1)), ("category text", dict(category="Sensor")), ("category None", dict(category=None))]
        if k in ("Energy", "CenterofMass"):
            if k == "Energy":
                a = dict(symbol_str=y, body=Ref(r.choice(s.bodies)), name=n); two = [("body None", dict(body=None)), ("body text", dict(body="b")), ("category None", dict(category=None))]
            else:
                if s.__dict__.get("com"): return
                s.com = True
                a = dict(symbol_str=y, Bodies=[Ref(b) for b in s.bodies], name=n); two = [("bodies text", dict(Bodies="all")), ("a number among the bodies", dict(Bodies=[Ref(s.bodies[0]), 3])), ("a text among the bodies", dict(Bodies=[Ref(s.bodies[-1]), "b"]))]
            sym = "symbol_str"
        elif k == "Joint":
            free = [j for j in s.joints if repr(j) not in s.jointsens]
            if not free: return
            j = r.choice(free); s.jointsens.add(repr(j))
            a = dict(symbol=y, joint=j, name=n); two = [("joint None", dict(joint=None)), ("joint body", dict(joint=Ref(s.bodies[0]))), ("category None", dict(category=None))]; sym = "symbol"
            if len(s.jointsens) > 1: two.append(("second sensor of a joint", dict(joint=[x for x in s.joints if repr(x) in s.jointsens and repr(x) != repr(j)][0])))
        else:
            b1, f1 = s.any(); b2, f2 = s.any(b1); sym = "symbol"
            a = dict(symbol=y, CS1=f1, CS2=f2, name=n)
            if k not in ("Distance", "Orientation"):
                if r.random() < .4: a["CSref"] = s.any()[1]
                two.append(("CSref text", dict(CSref="world")))
        bad = (s.prefix() + s.prefix(sym) if k == "CenterofMass" else s.badname(used=s.taken.get("sensor", [])) + s.badsym(sym)) + two
        s.add("w.addSensor." + k, a, y, bad, "sensor." + k); 
        if k != "CenterofMass": s.took("name", n); s.took("sensor", n); s.took("sym", y)
        s.sensors.append((k, y))
    def visual(s):
        r = s.rng; k = r.choice(["Box", "Line", "Cylinder", "Sphere", "Frame", "Arrow", "File"]); n = s.nm("v")
        dims = dict(Box=["length", "width", "height"], Line=["length"], Cylinder=["radius", "height"], Sphere=["radius"], Frame=["size"], Arrow=["size"], File=[])[k]
        a = dict(cs=s.any()[1], name=n)
        for d in dims: a[d] = s.pos()
        if k == "File": a["fileName"] = "part.stl"
        bad = s.badname(used=s.taken.get("vis", [])) + [("cs None", dict(cs=None)), ("cs text", dict(cs="b"))]
        if k == "File": bad += [("file number", dict(fileName=3)), ("scale text", dict(scale="big"))]
        for d in dims: bad += [(d + " text", {d: "x"}), (d + " None", {d: None}), (d + " list", {d: [1., 2.]}), (d + " matrix", {d: Fn(lambda e: Matrix([1., 2.]), "Matrix")})]
        s.add("w.addVisualisation." + k, a, None, bad, "vis." + k); s.took("name", n); s.took("vis", n)
    def convenience(s):
        r = s.rng; k = r.choice(["addSpringDamper", "addHydCylSensorsLoads", "addContactSensorsLoads", "addTyreSensorsLoads", "addMotionSystemSensors", "addGraphicSensors"]); n = s.nm("c")
        fr = [f[1] for f in s.frames if f[0] != "w"]
        if len({f[0] for f in s.frames if f[0] != "w"}) < 1: return
        f1 = r.choice([f for f in s.frames if f[0] != "w"])
        other = [f for f in s.frames if f[0] != f1[0]]
        if k in ("addSpringDamper", "addHydCylSensorsLoads", "addTyreSensorsLoads") and not other: return
        f2 = r.choice(other) if other else None
        a = dict(name=n); bad = s.prefix()
        if k not in ("addGraphicSensors", "addMotionSystemSensors", "addSpringDamper"): bad += [("name %r" % (b,), dict(name=b)) for b in (None, 5)]
        if k == "addSpringDamper":
            a.update(CS1=Ref(f1[1]), CS2=Ref(f2[1]), c=s.scalar(), d=s.scalar(), l0=s.scalar()); bad += [("c text", dict(c="soft")), ("c None", dict(c=None)), ("d list", dict(d=[1., 2.])), ("l0 text", dict(l0="x")), ("CS1 None", dict(CS1=None)), ("CS2 text", dict(CS2="w")), ("l0 matrix", dict(l0=Fn(lambda e: Matrix([1., 2., 3.]), "Matrix")))]
        elif k == "addHydCylSensorsLoads": a.update(CS1=Ref(f1[1]), CS2=Ref(f2[1])); bad += [("CS1 None", dict(CS1=None)), ("CS2 text", dict(CS2="w"))]
        elif k == "addContactSensorsLoads": a.update(CS_C=Ref(f1[1])); bad += [("CS None", dict(CS_C=None))]
        elif k == "addTyreSensorsLoads": a.update(CS_C=Ref(f1[1]), CS_R=Ref(f2[1])); bad += [("CS_C None", dict(CS_C=None)), ("CS_R text", dict(CS_R="w"))]
        elif k == "addMotionSystemSensors": a.update(CS_D=Ref(f1[1])); bad += [("CS None", dict(CS_D=None))]
        else: a.update(cs=Ref(f1[1])); bad += [("cs None", dict(cs=None))]
        # a symbol this call needs is in use already
        used = dict(addSpringDamper="force_", addHydCylSensorsLoads="F_", addContactSensorsLoads="M_", addTyreSensorsLoads="M_", addGraphicSensors="T_").get(k)
        if used:
            m = s.nm("t")
            s.add("w.addInput", dict(symbol_str=used + m), used + m, []); s.took("sym", used + m)
            bad += [("part in use", dict(name=m))] * 2
            s.free.append((used + m, ()))
        s.add("w." + k, a, None, bad, k)
    def range(s):
        if not s.joints: return
        r = s.rng; j = r.choice(s.joints)
        s.add("w.setJointRange", dict(joint=j, minVal=-1, maxVal=2.5), None, [("joint None", dict(joint=None)), ("min above max", dict(minVal=3)), ("text", dict(maxVal="x")), ("None", dict(minVal=None))], "setJointRange")
    def transmission(s):
        """two joints that carry one body each, with a constant ratio"""
        if len(s.joints) < 2 or s.__dict__.get("trans"): return
        r = s.rng; j1, j2 = r.sample(s.joints, 2); s.trans = True; n = s.nm("tr")
        s.add("w.addLoop.Transmission", dict(j1=j1, j2=j2, ratio=s.num(.4, 2), name=n), None, s.badname(used=[]) + [("j1 None", dict(j1=None)), ("j2 text", dict(j2="j")), ("j2 a body", dict(j2=Ref(s.bodies[0]))), ("ratio text", dict(ratio="x")),
              ("ratio None", dict(ratio=None)), ("j1 a frame", dict(j1=s.at(s.bodies[-1])))], "loop.Transmission")
    def controller(s):
        r = s.rng; n = s.nm("k")
        def law(t, y, sensors): return 0
        s.add("w.addController", dict(symbol_str=n, controlfunc=Fn(lambda e, f=law: f, "law"), shape=()), n, s.badsym("symbol_str") + s.badname(used=[]) + [("no function", dict(controlfunc=3)), ("function None", dict(controlfunc=None)), ("function text", dict(controlfunc="law")), ("shape list", dict(shape=[3])), ("shape number", dict(shape=1))])
        s.took("sym", n); s.free.append((n, ())); s.syms[()].append(n)
    def make(s):
        r = s.rng
        s.bodies = []
        for _ in range(r.choice([1, 2, 2, 3])):
            for _ in range(r.choice([0, 1, 1, 2])): s.param()
            s.body()
        if r.random() < .3: s.clash()
        for _ in range(r.choice([0, 1, 2])): s.frame("w")
        for i, b in enumerate(s.bodies): s.joint(b, "w" if i == 0 else r.choice(s.bodies[:i] + ["w"]))
        for _ in range(r.choice([1, 2])): s.inp()
        if r.random() < .3: s.controller()
        for _ in range(r.choice([0, 1, 2])): s.expression()
        todo = [s.load] * r.choice([1, 2, 3]) + [s.sensor] * r.choice([1, 2, 3]) + [s.visual] * r.choice([0, 1, 2]) + [s.convenience] * r.choice([0, 1, 2]) + [s.range] * r.choice([0, 1])
        if r.random() < .25: todo.append(s.transmission)
        r.shuffle(todo)
        for f in todo: f()
        return s

GENS = ["Explicit", "Recursive", "OrderN"]
BADGEN = [("graphOptimizations", "x"), ]
class Silent(quiet): pass

def show(c, args):
    return "%s(%s)" % (c.path, ", ".join("%s=%s" % (k, str(v)[:60]) for k, v in args.items()))

def finish(m, gen, out=None):
    getattr(m.env["w"].genEquations, gen)()
    m.unchanged()
def values(m, rng_state, out):
    import random
    rng = random.Random(rng_state)
    g = m.env["w"].graph
    E = Equations(g, [VarKind.Der_State, VarKind.Sensor])
    env = {}
    for kind in (VarKind.State, VarKind.Input, VarKind.Controller):
        for v in sorted(g.getVariables(kind), key=str):
            sh = tuple(v.shape()); n = int(np.prod(sh)) if sh else 1
            x = [rng.uniform(-1, 1) for _ in range(n)]
            env[str(v)] = x[0] if sh == () else np.matrix(np.array(x).reshape(sh if len(sh) == 2 else (n, 1)))
    env["time"] = .7
    for k, v in m.env["w"].paramDict.items():
        if k not in env: env[k] = float(eval(str(v), dict(vars(math)), env))
    r = E.run(env)
    return {k: np.array(v, float) for k, v in r.items() if k.startswith("der_") or any(k == str(x) for x in g.getVariables(VarKind.Sensor))}, sorted(map(str, g.getVariables(0xffff)))

def play(script, pick, out, idx):
    """runs the script; pick(i, call) gives the invalid variants to try before call i"""
    m = Model(); late = []
    w = m.env["w"] = MbsSystem(list(script.gravity)); tried = []
    for i, c in enumerate(script.calls):
        for label, change in pick(i, c):
            args = dict(c.args); args.update(change)
            sig = "%s: %s" % (c.kind, label.split(" <")[0] if not label.startswith(("name ", "symbol ")) or label.startswith(("symbol text", "symbol N", "symbol num")) else label)
            try:
                m.call(c, args)
            except Fail: raise
            except CaseTimeout: raise
            except SystemExit: raise Fail("refused", "exit:" + sig, show(c, args))
            except BaseException as e:
                if not str(type(e)) : pass
                tried.append((sig, type(e).__name__)); out.inc("refused"); out.group("by " + c.kind, type(e).__name__)
                continue
            late.append((sig, show(c, args))); out.inc("late")
            return m, tried, late, i
        r = None
        try:
            r = m.call(c)
        except (Fail, CaseTimeout): raise
        except BaseException as e:
            if not tried: raise
            raise Fail("leftover", "valid call refused:%s after %s" % (c.kind, tried[-1][0]), "%s: %s: %s\nrefused before: %s" % (show(c, c.args), type(e).__name__, str(e)[:200], tried))
        if c.store: m.env[c.store] = r
        out.inc("calls")
    return m, tried, late, len(script.calls)

def case(out, rng, idx, tier):
    script = Script(rng); script.gravity = [0, 0, -1]; script.make()
    gen = rng.choice(GENS[:2] if script.__dict__.get("trans") else GENS)
    seed = rng.random()
    every = rng.choice([.3, .6, 1.])
    chosen = {}
    for i, c in enumerate(script.calls):
        if c.bad and rng.random() < every: chosen[i] = rng.sample(c.bad, min(len(c.bad), rng.choice([1, 1, 2])))
    only = os.environ.get("A01_ONLY")
    with Silent():
        m, tried, late, at = play(script, lambda i, c: chosen.get(i, ()), out, idx)
        if late:
            # accepted so far: in a complete model the generation has to refuse it
            later(script, at, late[0][0], gen, seed, out, chosen)
            out.inc("distinct"); return
        t, _, _, _ = play(script, lambda i, c: (), out, idx)
        finish(t, gen)
        try: ref, rnames = values(t, seed, out)
        except ZeroDivisionError: out.inc("undefined"); return       # bodies whose masses add up to nothing, and the like
        try:
            finish(m, gen)
            got, names = values(m, seed, out)
        except (Fail, CaseTimeout): raise
        except BaseException as e:
            raise Fail("leftover", "generation fails after refused calls: " + (tried[-1][0] if len(tried) == 1 else "several"), "%s: %s\nrefused: %s" % (type(e).__name__, str(e)[:300], tried))
    if set(got) != set(ref): raise Fail("leftover", "variables after refused calls", "%s\nrefused: %s" % (sorted(set(got) ^ set(ref)), tried))
    if names != rnames: raise Fail("leftover", "variables after refused calls: " + (tried[-1][0] if len(tried) == 1 else "several"), "%s\nrefused: %s" % (sorted(set(names) ^ set(rnames)), tried))
    for k in ref:
        out.inc("comparisons")
        if got[k].shape != ref[k].shape or not np.allclose(got[k], ref[k], rtol=1e-9, atol=1e-11, equal_nan=True):
            raise Fail("leftover", "values after refused calls", "%s: %s instead of %s\nrefused: %s" % (k, got[k], ref[k], tried))
    if tried: out.inc("distinct")
    out.sample(dict(calls=len(script.calls), refused=[t[0] for t in tried][:8]))

def later(script, at, sig, gen, seed, out, chosen):
    """one invalid call that is accepted, instead of or next to the valid one, in a model that is complete otherwise"""
    label, change = [b for b in chosen[at] if (b[0].split(" <")[0] in sig)][0]
    m = Model(); m.env["w"] = MbsSystem(list(script.gravity)); text = ""
    try:
        for i, c in enumerate(script.calls):
            args = dict(c.args)
            if i == at: args.update(change); text = show(c, args)
            r = m.call(c, args)
            if c.store: m.env[c.store] = r
        finish(m, gen)
        values(m, seed, out)
    except (Fail, CaseTimeout): raise
    except BaseException as e:
        out.inc("refused_late"); return
    raise Fail("accepted", sig, "%s is accepted, and equations are generated" % text)

if __name__ == "__main__":
    run(sys.argv[1], case, sys.argv[2:], limit_s=60)
