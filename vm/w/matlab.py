"""A small interpreter of MATLAB: function files made of assignments. Values are two-dimensional arrays of doubles,
structs are dicts. Anything outside this subset, an undefined name, operands whose sizes do not fit, or an index out
of range is an Error, as it is one in MATLAB (implicit expansion is treated as an error as well)."""
import re
import numpy as np

class Error(Exception): pass

TOK = re.compile(r"""(?P<cont>\.\.\.[^\n]*\n)|(?P<com>%[^\n]*)|(?P<num>(\d+\.?\d*|\.\d+)([eEdD][+-]?\d+)?)|(?P<id>[A-Za-z]\w*)|(?P<op>\.\^|\.\*|\./|==|~=|<=|>=|&&|\|\||[-+*/\\^'()\[\],;=<>:.@])|(?P<nl>\n)|(?P<ws>[ \t\r]+)|(?P<bad>.)""")
MAXNAME = 63
KEYWORDS = set("break case catch classdef continue else elseif end for function global if otherwise parfor persistent return spmd switch try while".split())

def tokens(text):
    """(kind, text, space before, space after)"""
    out, sp, strq = [], False, False
    for m in TOK.finditer(text):
        k = m.lastgroup; v = m.group(k)
        if k in ("ws", "cont"): sp = True; continue
        if k == "com": continue
        if k == "bad": raise Error("character %r" % v)
        if k == "id" and len(v) > MAXNAME: raise Error("name longer than %d characters: %s" % (MAXNAME, v))
        # the quote of a string, when it does not follow an operand
        if v == "'" and not (out and not sp and (out[-1][0] in ("num", "id") or out[-1][1] in (")", "]", "'"))): raise Error("string")
        out.append([k, v, sp, False])
        if len(out) > 1: out[-2][3] = sp or k == "nl"
        sp = False
    return out

class Parser:
    def __init__(s, toks): s.t, s.i, s.br = toks, 0, []       # br: the open brackets
    def skip(s):
        # inside round brackets line ends do not occur; inside square ones they separate rows
        if s.br and s.br[-1] == "(":
            if s.i < len(s.t) and s.t[s.i][0] == "nl": raise Error("line end inside round brackets")
    def peek(s):
        s.skip()
        return s.t[s.i] if s.i < len(s.t) else ("end", "", False, False)
    def next(s):
        x = s.peek(); s.i += 1; return x
    def expect(s, v):
        x = s.next()
        if x[1] != v: raise Error("%r where %r is expected" % (x[1], v))
    def binary(s, ops, sub):
        l = sub()
        while True:
            x = s.peek()
            if x[0] != "op" or x[1] not in ops: return l
            # within square brackets "a -b" are two elements
            if s.br and s.br[-1] == "[" and x[1] in "+-" and x[2] and not x[3]: return l
            s.i += 1
            l = ("bin", x[1], l, sub())
    def expr(s): return s.binary(("<", ">", "==", "~=", "<=", ">="), s.sum)
    def sum(s): return s.binary(("+", "-"), s.prod)
    def prod(s): return s.binary(("*", "/", "\\", ".*", "./"), s.unary)
    def unary(s):
        x = s.peek()
        if x[0] == "op" and x[1] in "+-": s.i += 1; return ("un", x[1], s.unary())
        return s.power()
    def power(s):
        l = s.post()
        while True:
            x = s.peek()
            if x[1] == "^":
                s.i += 1; y = s.peek(); sign = []
                while y[0] == "op" and y[1] in "+-": s.i += 1; sign.append(y[1]); y = s.peek()
                r = s.post()
                for g in reversed(sign): r = ("un", g, r)
                l = ("bin", "^", l, r)
            elif x[1] == "'": s.i += 1; l = ("tr", l)
            else: return l
    def post(s):
        x = s.next()
        if x[0] == "num": return ("num", float(x[1].lower().replace("d", "e")))
        if x[1] == "(":
            s.br.append("("); e = s.expr(); s.expect(")"); s.br.pop(); return e
        if x[1] == "[": return s.matrix()
        if x[0] != "id" or x[1] in KEYWORDS: raise Error("unexpected %r" % x[1])
        e = ("id", x[1])
        while True:
            y = s.peek()
            inside = s.br and s.br[-1] == "["
            if y[1] == "(" and not (inside and y[2]):
                s.i += 1; s.br.append("("); a = []
                if s.peek()[1] != ")":
                    while True:
                        if s.peek()[1] == ":" : s.i += 1; a.append(("all",))
                        else:
                            v = s.expr()
                            if s.peek()[1] == ":": s.i += 1; v = ("range", v, s.expr())
                            a.append(v)
                        if s.peek()[1] != ",": break
                        s.i += 1
                s.expect(")"); s.br.pop(); e = ("call", e, a)
            elif y[1] == "." and not (inside and y[2]):
                s.i += 1; z = s.next()
                if z[0] != "id": raise Error("field %r" % z[1])
                e = ("field", e, z[1])
            else: return e
    def matrix(s):
        s.br.append("["); rows, row = [], []
        while True:
            x = s.peek()
            if x[1] == "]": s.i += 1; break
            if x[1] == ";" or x[0] == "nl":
                s.i += 1
                if row: rows.append(row); row = []
                continue
            if x[1] == ",":
                if not row: raise Error("empty element")
                s.i += 1; row.append(s.expr()); continue
            if x[0] == "end": raise Error("open bracket")
            row.append(s.expr())
        s.br.pop()
        if row: rows.append(row)
        return ("mat", rows)

def parse(text):
    """name, arguments, result and statements of a function file; a script has no name"""
    t = tokens(text + "\n"); p = Parser(t); head, body = None, []
    ended = False
    while p.i < len(t):
        x = t[p.i]
        if x[0] == "nl" or x[1] in (";", ","): p.i += 1; continue
        if ended: raise Error("text behind the end of the function")
        if x[1] == "function":
            if head or body: raise Error("second function")
            p.i += 1; r = p.next()[1]; p.expect("="); n = p.next()[1]; a = []
            if p.peek()[1] == "(":
                p.i += 1
                while p.peek()[1] != ")":
                    a.append(p.next()[1])
                    if p.peek()[1] == ",": p.i += 1
                p.i += 1
            head = (n, a, r); continue
        if x[1] == "end": p.i += 1; ended = True; continue
        lhs = p.next()
        if lhs[0] != "id" or lhs[1] in KEYWORDS: raise Error("statement starts with %r" % lhs[1])
        f = None
        if p.peek()[1] == ".": p.i += 1; f = p.next()[1]
        p.expect("=")
        if p.peek()[1] == "=": raise Error("==")
        e = p.expr()
        y = p.peek()
        if not (y[0] in ("nl", "end") or y[1] in (";", ",")): raise Error("%r behind an expression" % y[1])
        if y[1] != ";": raise Error("statement without semicolon shows its result: %s" % lhs[1])
        body.append((lhs[1], f, e))
    if head and not ended: raise Error("function without end")
    return head, body

def num(v):
    if isinstance(v, dict): raise Error("a struct is no number")
    return v
def fits(a, b):
    if a.size != 1 and b.size != 1 and a.shape != b.shape: raise Error("sizes %s and %s" % (a.shape, b.shape))
def each(f):
    def g(*a):
        with np.errstate(all="ignore"): r = f(*[num(x) for x in a])
        if np.isnan(r).any() and not any(np.isnan(x).any() for x in a): raise Error("complex or undefined result")
        return r
    return g
def two(f):
    def g(a, b): fits(a, b); return f(a, b)
    return each(g)
def inv(a):
    if a.shape[0] != a.shape[1]: raise Error("inv of %s" % (a.shape,))
    return np.linalg.inv(a)
def size(*a):
    a = [x.item() for x in a]
    if any(x != int(x) for x in a): raise Error("size")
    return (int(a[0]), int(a[-1]))
FUN = {"sin": each(np.sin), "cos": each(np.cos), "tan": each(np.tan), "asin": each(np.arcsin), "acos": each(np.arccos), "atan": each(np.arctan),
       "atan2": two(np.arctan2), "abs": each(np.abs), "sign": each(np.sign), "sqrt": each(np.sqrt), "exp": each(np.exp), "transpose": lambda a: num(a).T, "inv": lambda a: inv(num(a)),
       "zeros": lambda *a: np.zeros(size(*a)), "eye": lambda *a: np.eye(*size(*a)), "norm": lambda a: np.array([[np.linalg.norm(num(a))]])}
CONST = {"pi": np.pi}

class Interp:
    def __init__(s, functions): s.fun = functions      # name -> (args, result, body) or a Python function
    def ev(s, e, env):
        k = e[0]
        if k == "num": return np.array([[e[1]]])
        if k == "id":
            if e[1] in env: return env[e[1]]
            if e[1] in CONST: return np.array([[CONST[e[1]]]])
            return s.call(e[1], [])
        if k == "un": v = num(s.ev(e[2], env)); return -v if e[1] == "-" else v
        if k == "tr": return num(s.ev(e[1], env)).T
        if k == "bin": return s.bin(e[1], num(s.ev(e[2], env)), num(s.ev(e[3], env)))
        if k == "mat":
            rows = []
            for r in e[1]:
                v = [num(s.ev(x, env)) for x in r]; v = [x for x in v if x.size]
                if len({x.shape[0] for x in v}) > 1: raise Error("rows of different height")
                if v: rows.append(np.hstack(v))
            if len({x.shape[1] for x in rows}) > 1: raise Error("rows of different length")
            return np.vstack(rows) if rows else np.zeros((0, 0))
        if k == "field":
            v = s.ev(e[1], env)
            if not isinstance(v, dict) or e[2] not in v: raise Error("no field %s" % e[2])
            return v[e[2]]
        if k == "call":
            if e[1][0] == "id" and e[1][1] not in env: return s.call(e[1][1], [s.ev(a, env) for a in e[2]])
            return s.index(num(s.ev(e[1], env)), e[2], env)
        raise Error(k)
    def bin(s, op, a, b):
        with np.errstate(all="ignore"):
            if op in ("+", "-", ".*", "./"):
                fits(a, b); return a + b if op == "+" else a - b if op == "-" else a * b if op == ".*" else a / b
            if op == "*":
                if a.size == 1 or b.size == 1: return a * b
                if a.shape[1] != b.shape[0]: raise Error("product of %s and %s" % (a.shape, b.shape))
                return a @ b
            if op == "/":
                if b.size == 1: return a / b
                raise Error("right division")
            if op == "\\":
                if a.size == 1: return b / a
                if a.shape[0] != a.shape[1] or a.shape[0] != b.shape[0]: raise Error("solve %s %s" % (a.shape, b.shape))
                return np.linalg.solve(a, b)
            if op == "^":
                if b.size != 1: raise Error("matrix exponent")
                x = b.item()
                if a.size == 1:
                    if a.item() < 0 and x != int(x): raise Error("complex result")
                    return a ** x
                if a.shape[0] != a.shape[1] or x != int(x): raise Error("power of %s" % (a.shape,))
                return np.linalg.matrix_power(a, int(x))
            if op in ("<", ">", "==", "~=", "<=", ">="):
                fits(a, b)
                return {"<": a < b, ">": a > b, "==": a == b, "~=": a != b, "<=": a <= b, ">=": a >= b}[op].astype(float)
        raise Error(op)
    def index(s, v, a, env):
        def one(x, n):
            if x[0] == "all": return list(range(n))
            if x[0] == "range": lo, hi = s.ev(x[1], env).item(), s.ev(x[2], env).item(); r = list(range(int(lo), int(hi) + 1))
            else: r = [s.ev(x, env).item()]
            if any(i != int(i) or i < 1 or i > n for i in r): raise Error("index %s of %d" % (r, n))
            return [int(i) - 1 for i in r]
        if len(a) == 1:
            i = one(a[0], v.size); w = v.ravel(order="F")[i]
            return w.reshape((1, -1) if v.shape[0] == 1 and a[0][0] != "all" else (-1, 1))
        if len(a) == 2: return v[np.ix_(one(a[0], v.shape[0]), one(a[1], v.shape[1]))]
        raise Error("index")
    def call(s, n, a):
        if n in s.fun:
            f = s.fun[n]
            if callable(f): return f(*a)
            args, res, body = f
            if len(a) > len(args): raise Error("too many arguments for %s" % n)
            return s.run(body, dict(zip(args, a)), res)
        if n in FUN:
            try: return FUN[n](*a)
            except TypeError: raise Error("arguments of %s" % n)
        raise Error("undefined: %s" % n)
    def run(s, body, env, res):
        for n, f, e in body:
            v = s.ev(e, env)
            if f is None: env[n] = v
            else:
                if n not in env or (not isinstance(env[n], dict) and env[n].size == 0): env[n] = {}
                if not isinstance(env[n], dict): raise Error("field of a number")
                env[n] = dict(env[n]); env[n][f] = v
        if res not in env: raise Error("result %s is not assigned" % res)
        return env[res]
