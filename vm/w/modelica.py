"""A reader of flat Modelica models: declarations and equations, evaluated under the type rules of Modelica
(sizes of operands and of both sides of an equation, position of signs, matrix powers, bindings of parameters)."""
import re
import numpy as np

class Error(Exception): pass

TOK = re.compile(r"""(?P<com>//[^\n]*)|(?P<str>"(\\.|[^"\\])*")|(?P<num>\d+(\.\d*)?([eE][+-]?\d+)?)|(?P<id>[A-Za-z_]\w*)|(?P<op><=|>=|==|<>|[-+*/^()\[\]{},;=<>.:])|(?P<ws>\s+)|(?P<bad>.)""")
KEYWORDS = set("""algorithm and annotation assert block break class connect connector constant constrainedby der discrete each else elseif elsewhen encapsulated
 end enumeration equation expandable extends external false final flow for function if import impure in initial inner input loop model not operator or outer output package
 parameter partial protected public pure record redeclare replaceable return stream then true type when while within""".split())

def tokens(text):
    out = []
    for m in TOK.finditer(text):
        k = m.lastgroup
        if k in ("ws", "com"): continue
        if k == "bad": raise Error("character %r" % m.group(k))
        out.append((k, m.group(k)))
    return out

class Decl:
    def __init__(s, name, kind, sh, bind, mods, comment, protected):
        s.name, s.kind, s.sh, s.bind, s.mods, s.comment, s.protected = name, kind, sh, bind, mods, comment, protected

class Model:
    def __init__(s, text):
        s.t, s.i = tokens(text), 0
        s.decl, s.eqs, s.imports = {}, [], {}
        s.parse()
    # -- tokens
    def peek(s, k=0): return s.t[s.i + k] if s.i + k < len(s.t) else ("end", "")
    def next(s): x = s.peek(); s.i += 1; return x
    def at(s, v): return s.peek()[1] == v and s.peek()[0] != "str"
    def take(s, v):
        if s.at(v): s.i += 1; return True
        return False
    def expect(s, v):
        x = s.next()
        if x[1] != v: raise Error("%r where %r is expected" % (x[1], v))
    def ident(s):
        x = s.next()
        if x[0] != "id" or x[1] in KEYWORDS: raise Error("%r is no name" % x[1])
        return x[1]
    # -- the class
    def parse(s):
        s.package = None
        if s.take("within"): s.package = s.ident(); s.expect(";")
        s.partial = s.take("partial")
        s.expect("model"); s.name = s.ident()
        prot = False
        while not s.at("equation"):
            if s.take("protected"): prot = True; continue
            if s.take("public"): prot = False; continue
            if s.take("import"):
                n = [s.ident()]
                while s.take("."): n.append(s.ident())
                s.expect(";"); s.imports[n[-1]] = ".".join(n); continue
            s.declaration(prot)
        s.expect("equation")
        while not s.at("end"):
            l = s.simple(); s.expect("="); r = s.expr()
            if s.peek()[0] == "str": s.next()
            s.expect(";"); s.eqs.append((l, r))
        s.expect("end"); n = s.ident(); s.expect(";")
        if n != s.name: raise Error("the class ends with another name")
        if s.peek()[0] != "end": raise Error("text behind the class")
    def declaration(s, prot):
        kind = "var"
        if s.peek()[1] in ("parameter", "constant", "input", "output"): kind = s.next()[1]
        if s.ident() != "Real": raise Error("type")
        sh = s.dims() if s.at("[") else ()
        n = s.ident()
        if s.at("["):
            if sh: raise Error("dimensions of %s twice" % n)
            sh = s.dims()
        mods, bind, com = {}, None, ""
        if s.take("("):
            while True:
                each = s.take("each"); m = s.ident(); s.expect("="); mods[m] = s.expr()
                if not s.take(","): break
            s.expect(")")
        if s.take("="): bind = s.expr()
        if s.peek()[0] == "str": com = s.next()[1][1:-1]
        s.expect(";")
        if n in s.decl: raise Error("%s is declared twice" % n)
        s.decl[n] = Decl(n, kind, sh, bind, mods, com, prot)
    def dims(s):
        s.expect("["); d = []
        while True:
            x = s.next()
            if x[0] != "num" or not x[1].isdigit(): raise Error("dimension %r" % x[1])
            d.append(int(x[1]))
            if not s.take(","): break
        s.expect("]"); return tuple(d)
    # -- expressions, after the grammar in the language specification
    def expr(s):
        if s.take("if"):
            c = s.expr(); s.expect("then"); a = s.expr(); s.expect("else"); return ("if", c, a, s.expr())
        return s.simple()
    def simple(s):
        l = s.arith()
        if s.peek()[1] in ("<", ">", "<=", ">=", "==", "<>"): return ("rel", s.next()[1], l, s.arith())
        return l
    def arith(s):
        neg = None
        if s.peek()[1] in ("+", "-"): neg = s.next()[1]
        l = s.term()
        if neg == "-": l = ("neg", l)
        while s.peek()[1] in ("+", "-"): op = s.next()[1]; l = ("bin", op, l, s.term())
        return l
    def term(s):
        l = s.factor()
        while s.peek()[1] in ("*", "/"): op = s.next()[1]; l = ("bin", op, l, s.factor())
        return l
    def factor(s):
        l = s.primary()
        if s.take("^"): return ("bin", "^", l, s.primary())
        return l
    def args(s):
        a = []
        s.expect("(")
        if not s.at(")"):
            a.append(s.expr())
            while s.take(","): a.append(s.expr())
        s.expect(")"); return a
    def primary(s):
        x = s.peek()
        if x[0] == "num": s.i += 1; return ("num", float(x[1]))
        if x[0] == "str": raise Error("string in an expression")
        if x[1] == "true" or x[1] == "false": s.i += 1; return ("bool", x[1] == "true")
        if s.take("("): e = s.expr(); s.expect(")")
        elif s.take("{"):
            a = [s.expr()]
            while s.take(","): a.append(s.expr())
            s.expect("}"); e = ("arr", a)
        elif x[1] == "der": s.i += 1; e = ("call", "der", s.args())
        else:
            n = s.ident()
            while s.at("."): s.i += 1; n += "." + s.ident()
            if n == "StateSelect.prefer": return ("sel",)
            e = ("call", n, s.args()) if s.at("(") else ("id", n)
        if s.at("["):
            s.i += 1; a = [s.expr()]
            while s.take(","): a.append(s.expr())
            s.expect("]"); e = ("sub", e, a)
        return e
    # -- values: floats and arrays
    def ev(s, e, env):
        k = e[0]
        if k == "num": return e[1]
        if k == "bool": return e[1]
        if k == "id":
            if e[1] in env: return env[e[1]]
            if e[1] in s.decl: raise Unknown(e[1])
            if e[1] == "pi" and "pi" in s.imports: return np.pi
            raise Error("undeclared: %s" % e[1])
        if k == "neg": return -num(s.ev(e[1], env))
        if k == "bin": return binary(e[1], num(s.ev(e[2], env)), num(s.ev(e[3], env)))
        if k == "rel":
            a, b = s.ev(e[2], env), s.ev(e[3], env)
            if not isinstance(a, float) or not isinstance(b, float): raise Error("comparison of arrays")
            if e[1] in ("==", "<>"): raise Error("comparison of Reals for equality")
            return bool({"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[e[1]])
        if k == "if":
            c = s.ev(e[1], env)
            if not isinstance(c, bool): raise Error("condition is no Boolean")
            a, b = s.ev(e[2], env), s.ev(e[3], env)
            if shape(a) != shape(b): raise Error("branches of different sizes")
            return a if c else b
        if k == "arr":
            v = [s.ev(x, env) for x in e[1]]
            if len({shape(x) for x in v}) > 1: raise Error("elements of different sizes")
            return np.array(v, float)
        if k == "sub":
            v = s.ev(e[1], env); i = [s.ev(x, env) for x in e[2]]
            if len(i) != len(shape(v)): raise Error("%d subscripts for %s" % (len(i), shape(v)))
            if any(x != int(x) or x < 1 or x > n for x, n in zip(i, v.shape)): raise Error("subscript out of range")
            return float(v[tuple(int(x) - 1 for x in i)])
        if k == "call": return s.call(e[1], e[2], env)
        raise Error(k)
    def call(s, n, a, env):
        if n == "der":
            if len(a) == 1 and a[0][0] == "sub" and a[0][1][0] == "id":      # der(x[i,j])
                return s.ev(("sub", ("call", "der", [a[0][1]]), a[0][2]), env)
            if len(a) != 1 or a[0][0] != "id": raise Error("der of an expression")
            if ("der", a[0][1]) not in env: raise Unknown("der(%s)" % a[0][1])
            return env["der", a[0][1]]
        if n == "zeros":
            d = [s.ev(x, env) for x in a]; return np.zeros([int(x) for x in d])
        v = [num(s.ev(x, env)) for x in a]
        f = n
        if n in ("asin", "acos", "atan", "atan2") and s.imports.get(n) != "Modelica.Math." + n: raise Error("%s is not imported" % n)
        one = {"sin": np.sin, "cos": np.cos, "tan": np.tan, "asin": np.arcsin, "acos": np.arccos, "atan": np.arctan, "abs": np.abs, "sign": np.sign, "sqrt": np.sqrt, "exp": np.exp}
        if f in one:
            if len(v) != 1: raise Error("arguments of %s" % n)
            return num(one[f](v[0]))
        if f == "atan2":
            if len(v) != 2 or shape(v[0]) != shape(v[1]): raise Error("arguments of atan2")
            return num(np.arctan2(v[0], v[1]))
        if f == "scalar":
            if len(v) != 1 or np.size(v[0]) != 1: raise Error("scalar of %s" % (shape(v[0]),))
            return float(np.ravel(v[0])[0])
        if f == "vector":
            if len(v) != 1 or sum(x > 1 for x in shape(v[0])) > 1: raise Error("vector of %s" % (shape(v[0]),))
            return np.ravel(v[0]).astype(float)
        if f == "transpose":
            if len(shape(v[0])) != 2: raise Error("transpose of %s" % (shape(v[0]),))
            return v[0].T
        if f == "skew":
            if shape(v[0]) != (3,): raise Error("skew of %s" % (shape(v[0]),))
            x, y, z = v[0]; return np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
        if f == "outerProduct":
            if len(shape(v[0])) != 1 or len(shape(v[1])) != 1: raise Error("outerProduct")
            return np.outer(v[0], v[1])
        if f == "Modelica.Math.Matrices.inv":
            if len(shape(v[0])) != 2 or v[0].shape[0] != v[0].shape[1]: raise Error("inv of %s" % (shape(v[0]),))
            return np.linalg.inv(v[0])
        if f == "Modelica.Math.Matrices.solve2":
            if len(v) != 2 or len(shape(v[0])) != 2 or len(shape(v[1])) != 2 or v[0].shape[0] != v[0].shape[1] or v[1].shape[0] != v[0].shape[0]: raise Error("solve2 of %s and %s" % (shape(v[0]), shape(v[1])))
            return np.linalg.solve(v[0], v[1])
        raise Error("unknown function %s" % n)
    # -- the model
    def bindings(s):
        """values of the parameters and constants"""
        env, open_ = {}, {n: d for n, d in s.decl.items() if d.kind in ("parameter", "constant")}
        while open_:
            done = False
            for n, d in list(open_.items()):
                if d.bind is None: raise Error("%s has no value" % n)
                try: v = s.ev(d.bind, env)
                except Unknown as u:
                    if str(u) not in open_: raise Error("%s is bound to the variable %s" % (n, u))
                    continue
                if shape(v) != d.sh: raise Error("%s of size %s is bound to size %s" % (n, d.sh, shape(v)))
                env[n] = v; del open_[n]; done = True
            if not done: raise Error("cyclic bindings")
        return env
    def unknowns(s): return {n: d for n, d in s.decl.items() if d.kind in ("var", "output")}
    def starts(s, env): return {n: s.ev(d.mods["start"], env) for n, d in s.decl.items() if "start" in d.mods}
    def residuals(s, env):
        """difference of the two sides of every equation, all unknowns given"""
        for l, r in s.eqs:
            a, b = num(s.ev(l, env)), num(s.ev(r, env))
            if shape(a) != shape(b): raise Error("sides of different sizes: %s and %s" % (shape(a), shape(b)))
            yield np.ravel(a - b), 1 + max(np.max(np.abs(a), initial=0), np.max(np.abs(b), initial=0)), (l, r)
    def solve(s, env, states):
        """values of all unknowns for given states and inputs; equations of which one side is unknown are solved"""
        env = dict(env); eqs = list(s.eqs); size = 0
        def targets(e):
            if e[0] == "id": return [e[1]] if e[1] in s.decl else None
            if e[0] == "call" and e[1] == "der" and e[2][0][0] == "id": return [("der", e[2][0][1])]
            if e[0] == "arr":
                r = [targets(x) for x in e[1]]
                return None if any(x is None for x in r) else [y for x in r for y in x]
            return None
        def assign(e, v):
            if e[0] == "arr":
                if shape(v)[:1] != (len(e[1]),): raise Error("sides of different sizes: %d and %s" % (len(e[1]), shape(v)))
                for x, y in zip(e[1], v): assign(x, float(y) if np.ndim(y) == 0 else y)
                return
            n = targets(e)[0]; d = s.decl[n if isinstance(n, str) else n[1]]
            if shape(v) != d.sh: raise Error("sides of different sizes: %s is %s, the other side %s" % (n, d.sh, shape(v)))
            env[n] = v
        while eqs:
            left = []
            for l, r in eqs:
                for a, b in ((l, r), (r, l)):
                    t = targets(a)
                    if t and not any(x in env for x in t) and len(set(t)) == len(t):
                        try: v = s.ev(b, env)
                        except Unknown: continue
                        size += np.size(v); assign(a, v); break
                else: left.append((l, r))
            if len(left) == len(eqs): break
            eqs = left
        return env, eqs, size

class Unknown(Exception): pass
def shape(v): return np.shape(v)
def num(v):
    if isinstance(v, (bool, np.bool_)): raise Error("a Boolean is no number")
    if not np.all(np.isfinite(v)): raise Error("undefined value")
    return float(v) if np.ndim(v) == 0 else np.asarray(v, float)
def binary(op, a, b):
    sa, sb = shape(a), shape(b)
    with np.errstate(all="ignore"):
        if op in "+-":
            if sa != sb: raise Error("%s of sizes %s and %s" % (op, sa, sb))
            return a + b if op == "+" else a - b
        if op == "*":
            if not sa or not sb: return a * b
            if len(sa) == 2 and sa[1] != sb[0] or len(sa) == 1 and sa[0] != sb[0]: raise Error("* of sizes %s and %s" % (sa, sb))
            r = a @ b
            return float(r) if np.ndim(r) == 0 else r
        if op == "/":
            if sb: raise Error("division by size %s" % (sb,))
            return a / b if b != 0 else num(np.nan)
        if op == "^":
            if sb: raise Error("exponent of size %s" % (sb,))
            if sa:
                if len(sa) != 2 or sa[0] != sa[1] or b != int(b) or b < 0: raise Error("power %g of size %s" % (b, sa))
                return np.linalg.matrix_power(a, int(b))
            if a < 0 and b != int(b): raise Error("root of a negative number")
            if a == 0 and b < 0: raise Error("undefined value")
            return a ** b
    raise Error(op)
