"""SID files (M07): random files in the standard format are written, read by the library in random histories (files, bodies of
a system, ill-formed files in between), and everything the objects hold is compared with what was written.
modes: read, illformed"""
import sys, os, io, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import worker
from worker import Fail
from mech import quiet
import numpy as np
from pymbs.common.sidfilereader import SID

MATS = ["mdCM", "J", "Ct", "Cr", "Me", "Gr", "Ge", "Oe", "ksigma", "Ke", "De"]
WHERE = {"mdCM": ("mdcm", "mdcmmatrix"), "J": ("j", "Jmatrix"), "Ct": ("ct", "ctmatrix"), "Cr": ("cr", "crmatrix"), "Me": ("me", "mematrix"), "Gr": ("gr", "grmatrix"),
         "Ge": ("ge", "gematrix"), "Oe": ("oe", "oematrix"), "ksigma": ("ksigma", "ksigmamatrix"), "Ke": ("ke", "kematrix"), "De": ("de", "dematrix"),
         "origin": ("origin", "originmatrix"), "phi": ("phi", "phimatrix"), "psi": ("psi", "psimatrix"), "AP": ("ap", "apmatrix")}

def size(name, nq):
    return {"origin": (3, 1), "phi": (3, nq), "psi": (3, nq), "AP": (3, 3), "mdCM": (3, 1), "J": (6, 1), "Ct": (nq, 3), "Cr": (nq, 3), "Me": (nq, nq),
            "Gr": (3, 3 * nq), "Ge": (nq, 3 * nq), "Oe": (nq, 6), "ksigma": (nq, 1), "Ke": (nq, nq), "De": (nq, nq)}[name]

class File:
    """lines: (kind, text); data as written"""
    def __init__(s, rng, big=False):
        s.rng = rng; r = rng
        s.nn, s.nq = r.randint(1, 7 if big else 4), r.randint(1, 8 if big else 4)
        k = r.random()
        if k < .06: s.nn, s.nq = r.randint(9, 14), r.randint(1, 2)     # numbers of two digits
        elif k < .1: s.nn, s.nq = 1, r.randint(9, 12)
        s.lines = []; s.wide = r.random() < .7; s.num = r.choice(["D", "D", "D", "e", "E", "free"])
        s.eol = "\n" if r.random() < .8 else "\r\n"
        A = s.add
        A("count", " %4d%4d    :No. nodes, No. modes:SID generated by %s" % (s.nn, s.nq, r.choice(["FEMBS-V.FE-C including Geo_Stiff= yes", "x", "a: b = c"])))
        A("part", " part" + s.pad())
        s.name = r.choice(["beam", "3Mass_frei", "A-1", None, "modal", "end"])
        A("modal", "      new modal" + s.eq() + (" " + s.name if False else (s.name or "")) + s.pad())
        A("refmod", "           refmod" + s.pad())
        s.mass, t = s.value(); A("mass", "                mass" + s.eq() + t)
        A("nelastq", "                nelastq" + s.eq() + "%4d" % s.nq)
        s.modes = []
        first = r.randint(1, 40)
        for i in range(s.nq):
            f = round(r.choice([r.uniform(0, 10), r.uniform(10, 1e6)]), 3); n = first + i * r.randint(1, 3); s.modes.append((n, f))
            A("ielastq", "                ielastq (%4d)" % (i + 1) + s.eq() + "Eigen Mode %4d : %12.3f Hz" % (n, f))
        A("endrefmod", "           end refmod" + s.pad())
        A("frame", "           frame" + s.pad())
        s.nodes = []
        n0 = r.choice([1, 1, 1, 5, 100])
        for k in range(s.nn):
            A("node", "                new node" + s.eq() + "%8d" % (n0 + k * r.choice([1, 1, 7])))
            rf = r.choice(["body ref", "body ref", "frame1"]); A("rframe", "                     rframe" + s.eq() + rf)
            N = {"rframe": rf.replace(" ", "")}
            for m in ("origin", "phi", "psi", "AP"): N[m] = s.matrix(m, 21)
            A("endnode", "                end node" + s.pad()); s.nodes.append(N)
        A("endframe", "           end frame" + s.pad())
        s.mats = {m: s.matrix(m, 11) for m in MATS}
        A("endmodal", "      end modal" + s.pad()); A("endpart", " end part" + s.pad())
        if r.random() < .2: A("after", "")
    def pad(s): return " " * s.rng.choice([0, 5, 30]) if s.wide else ""
    def eq(s): return " " * s.rng.choice([1, 5, 25]) + "=" + s.rng.choice([" ", "  ", ""])
    def add(s, kind, text): s.lines.append((kind, text))
    def value(s):
        r = s.rng; k = r.random()
        x = r.uniform(-1, 1) * 10 ** r.choice([0, 0, 1, 3, -3, -14, 8, 100, -100])
        if k < .15: x = float(r.randint(-3, 3))
        if s.num == "free": t = r.choice(["%r", "%.6f", "%.3e", "%g"]) % x
        else: t = ("% .11E" % x).replace("E", s.num)
        return float(t.replace("D", "e")), t
    def matrix(s, name, ind):
        r = s.rng; nr, nc = size(name, s.nq); order = r.choice([0, 1]); p = r.choice([0, .2, .5, 1])
        if nr * nc * s.nq > 150: p = min(p, .2)
        I, J = " " * ind, " " * (ind + 5)
        s.add("mat", I + name + s.pad())
        st = r.randint(0, 4)
        for k, v in (("order", order), ("nrow", nr), ("ncol", nc), ("nq", s.nq), ("nqn", 0), ("structure", st)): s.add(k, J + "%-22s=%5d" % (k, v))
        M0 = np.zeros((nr, nc)); M1 = [np.zeros((nr, nc)) for _ in range(s.nq)]; out = []
        for i in range(nr):
            for j in range(nc):
                if r.random() < p: M0[i, j], t = s.value(); out.append(("m0", J + s.idx("m0", (i + 1, j + 1)) + s.eq() + t))
        if order:
            if r.random() < .2: out = r.sample(out, len(out))
            for d in range(s.nq):
                for i in range(nr):
                    for j in range(nc):
                        if r.random() < p * .7: M1[d][i, j], t = s.value(); out.append(("m1", J + s.idx("m1", (i + 1, d + 1, j + 1)) + s.eq() + t))
        if r.random() < .15: out = r.sample(out, len(out))
        s.lines += out
        s.add("endmat", I + "end " + name + s.pad())
        return dict(order=order, nrow=nr, ncol=nc, nq=s.nq, nqn=0, structure=st, M0=M0, M1=M1)
    def idx(s, n, ii):
        return n + "(" + ",".join(("%2d" if s.wide else "%d") % i for i in ii) + ")"
    def text(s, lines=None): return "".join(t + s.eol for _, t in (lines or s.lines))

# ------------------------------------------------------------------ reference
def same(what, got, ref):
    if not (type(got) is type(ref) or isinstance(got, (int, float)) and isinstance(ref, (int, float))) or got != ref:
        raise Fail("data", what.split(":")[-1], "%s: %r instead of %r" % (what, got, ref))

def check_matrix(what, m, ref):
    for k in ("order", "nrow", "ncol", "nq", "nqn", "structure"): same("%s:%s" % (what, k), getattr(m, k), ref[k])
    def arr(w, got, want):
        got = np.asarray(got)
        if got.shape != want.shape or not np.array_equal(got, want):
            raise Fail("data", "%s %s" % (what.split(" ")[-1], w), "%s %s: %s instead of %s" % (what, w, got.tolist(), want.tolist()))
    arr("M0", m.M0, ref["M0"])
    same("%s:number of first order terms" % what, len(m.M1), ref["nq"])
    for i, (a, b) in enumerate(zip(m.M1, ref["M1"])): arr("M1", a, b)
    return ref["M0"].size * (1 + len(ref["M1"]))

def check(sid, f, out):
    n = 0
    same("nodes", sid.nNodes, f.nn); same("modes", sid.nModes, f.nq)
    m = sid.modal
    if f.name: same("name", m.name, f.name)
    same("mass", m.refmod.mass, f.mass); same("nelastq", m.refmod.nelastq, f.nq)
    same("mode list", [(e.eigenschwingung, e.eigenfrequenz) for e in m.refmod.ielastq], f.modes)
    same("node numbers", [k.node_number for k in m.frame.Knoten], list(range(1, f.nn + 1)))
    for i, (k, N) in enumerate(zip(m.frame.Knoten, f.nodes)):
        same("rframe", k.rframe.refframe, N["rframe"])
        for w in ("origin", "phi", "psi", "AP"): n += check_matrix("node %d %s" % (i + 1, w), getattr(getattr(k, WHERE[w][0]), WHERE[w][1]), N[w])
    for w in MATS: n += check_matrix(w, getattr(getattr(m, WHERE[w][0]), WHERE[w][1]), f.mats[w])
    out.inc("matrix elements compared", n); out.inc("comparisons")

def frames(body, f, out):
    for i, N in enumerate(f.nodes):
        fr = body.node(i + 1)
        p = [float(str(fr.p[k])) for k in range(3)]
        if p != N["origin"]["M0"].ravel().tolist(): raise Fail("frames", "position of a node", "node %d at %s instead of %s" % (i + 1, p, N["origin"]["M0"].ravel().tolist()))
        if body.node_list[i].frame is not fr: raise Fail("frames", "node list", "node %d" % (i + 1))
    for k in (0, f.nn + 1):
        try: body.node(k)
        except Exception: continue
        raise Fail("frames", "node that does not exist", "node(%d) of %d answered" % (k, f.nn))
    if len({body.node(i + 1).name for i in range(f.nn)}) != f.nn: raise Fail("frames", "names of the nodes", "")

def written(sid):
    """the file made of the texts of the objects, in the order the library documents (main program of sidfilereader.py)"""
    m = sid.modal
    t = sid.ToString() + m.ToString() + m.refmod.ToString1() + "".join(e.ToString(i + 1) for i, e in enumerate(m.refmod.ielastq)) + "           end refmod\n           frame\n"
    t += "".join(k.ToString() for k in m.frame.Knoten) + "           end frame\n"
    return t + "".join(getattr(m, WHERE[w][0]).ToString() for w in MATS) + "      end modal\n end part"

def roundtrip(sid, f, out):
    t = written(sid)
    try: again = SID(io.StringIO(t))
    except worker.CaseTimeout: raise
    except Exception as e: raise Fail("written file refused", "%s %s" % (type(e).__name__, str(e)[:60]), t[:4000])
    try: check(again, f, out)
    except Fail as e: raise Fail("written " + e.kind, e.sig, e.detail)
    if written(again) != t: raise Fail("written", "text changes", "")
    out.inc("files written and read again")

# ------------------------------------------------------------------ ill-formed files
def illform(rng, f):
    """-> (what, text) of a file that is not a SID file any more"""
    L = list(f.lines); r = rng
    if L[-1][0] == "after": L.pop()
    pick = lambda *kinds: r.choice([i for i, (k, t) in enumerate(L) if k in kinds])
    struct = ("count", "part", "modal", "refmod", "mass", "nelastq", "endrefmod", "frame", "node", "rframe", "endnode", "endframe", "mat", "order", "nrow", "ncol", "nq", "nqn",
              "structure", "endmat", "endmodal", "endpart")
    vals = [i for i, (k, t) in enumerate(L) if k in ("m0", "m1")]
    kinds = ["cut", "delete", "double", "keyword", "count", "number", "nodes", "modes", "swap", "empty"] + (["index", "index", "value", "order"] if vals else [])
    while True:
        k = r.choice(kinds)
        if k == "cut": n = r.randrange(len(L)); return k, f.text(L[:n]) if n else ""
        if k == "delete": i = pick(*struct); return "%s %s" % (k, L[i][0]), f.text(L[:i] + L[i + 1:])
        if k == "double":
            i = pick(*[s for s in struct if s != "endpart"]); return "%s %s" % (k, L[i][0]), f.text(L[:i + 1] + [L[i]] + L[i + 1:])
        if k == "swap":
            i = pick("order", "nrow", "ncol", "nq", "nqn"); a = L[i]; L[i] = L[i + 1]; L[i + 1] = a; return k, f.text(L)
        if k == "keyword":
            i = pick("part", "refmod", "mass", "nelastq", "frame", "mat", "order", "nrow", "ncol", "nq", "nqn", "structure", "endrefmod", "endnode", "endframe", "endmodal", "endpart")
            t = L[i][1]; w = t.split("=")[0].split()[-1]; j = t.index(w)
            L[i] = (L[i][0], t[:j] + r.choice(["x" + w, "Q", w[::-1] if w != w[::-1] and not w[::-1].startswith(w) else "zz"]) + t[j + len(w):]); return "%s %s" % (k, L[i][0]), f.text(L)
        if k == "count":
            i = pick("nelastq", "order", "nrow", "ncol", "nq", "nqn", "structure"); a, b = L[i][1].split("=")
            L[i] = (L[i][0], a + "= " + r.choice(["x", "", "1.5", "--1", "one"])); return "%s %s" % (k, L[i][0]), f.text(L)
        if k == "number":
            i = pick("mass"); a, b = L[i][1].split("="); L[i] = (L[i][0], a + "= " + r.choice(["x", "", "1..5", "1,5", "1D"])); return k, f.text(L)
        if k == "value":
            i = r.choice(vals); a, b = L[i][1].split("="); L[i] = (L[i][0], a + "= " + r.choice(["x", "", "1..5", "1,5", "1D", "0x1"])); return k, f.text(L)
        if k == "nodes":
            n = f.nn + r.choice([1, 2] if f.nn == 1 else [1, -1]); L[0] = ("count", L[0][1].replace("%4d%4d" % (f.nn, f.nq), "%4d%4d" % (n, f.nq), 1)); return k, f.text(L)
        if k == "modes":
            i = pick("nelastq"); a, b = L[i][1].split("="); L[i] = ("nelastq", a + "= %d" % (f.nq + r.choice([1, -1] if f.nq > 1 else [1]))); return k, f.text(L)
        if k == "empty": i = r.randrange(1, len(L)); return k, f.text(L[:i] + [("", r.choice(["", "    "]))] + L[i:])
        if k == "index":
            i = r.choice(vals); b = i
            while L[b][0] != "mat": b -= 1
            g = lambda n: int(next(t for kk, t in L[b:] if kk == n).split("=")[1])
            lim = [g("nrow"), g("ncol")] if L[i][0] == "m0" else [g("nrow"), f.nq, g("ncol")]
            a, rest = L[i][1].split("("); ii, rest = rest.split(")", 1); ii = [int(x) for x in ii.split(",")]
            j = r.randrange(len(ii)); ii[j] = r.choice([0, lim[j] + 1, -1, lim[j] + 5])
            L[i] = (L[i][0], a + "(" + ",".join("%2d" % x for x in ii) + ")" + rest); return "index %s %s" % (L[i][0], ["row", "column" if len(ii) == 2 else "mode", "column"][j]), f.text(L)
        if k == "order":                                            # first order term in a matrix of order zero
            i = r.choice(vals); b = i
            while L[b][0] != "mat": b -= 1
            if L[i][0] == "m1":
                o = next(j for j in range(b, len(L)) if L[j][0] == "order"); L[o] = ("order", L[o][1].replace("1", "0")); return k, f.text(L)

def put(name, text):
    with open(name, "w", newline="") as h: h.write(text)

def read(rng, f, w, k, out):
    """reads the file in one of the ways of the library; -> what it made"""
    try:
        with quiet():
            if w is None or rng.random() < .4:
                if rng.random() < .5:
                    s = SID(io.StringIO(f.text(), newline=None))
                else:
                    put("a%d.sid" % k, f.text())
                    with open("a%d.sid" % k) as h: s = SID(h)
                return s, None
            put("b%d.sid" % k, f.text())
            b = w.addFlexibleBody(os.path.abspath("b%d.sid" % k), **({"name": "flex%d" % k} if rng.random() < .6 else {}))
            return b.sid, b
    except worker.CaseTimeout: raise
    except Exception as e:
        import traceback
        raise Fail("refused", "%s %s" % (type(e).__name__, str(e)[:60]), traceback.format_exc()[-900:] + f.text()[:3000])

def history(out, rng, idx, tier, bad):
    from pymbs.input import MbsSystem
    w = MbsSystem([0, 0, -1]); seen = []
    for k in range(rng.randint(2, 6)):
        if rng.random() < bad:
            f = File(rng); what, text = illform(rng, f)
            try:
                with quiet():
                    if rng.random() < .6: SID(io.StringIO(text, newline=None))
                    else:
                        put("c%d.sid" % k, text); w.addFlexibleBody(os.path.abspath("c%d.sid" % k), name="bad%d" % k)
            except worker.CaseTimeout: raise
            except Exception as e:
                out.inc("ill-formed files refused"); out.group("ill-formed", what.split(" ")[0]); out.inc("comparisons"); continue
            raise Fail("accepted", what, "an ill-formed file (%s) was read without complaint\n%s" % (what, text[:4000]))
        if seen and rng.random() < .15: f = rng.choice(seen)[0]
        else: f = File(rng, big=rng.random() < .2)
        s, b = read(rng, f, w, k, out)
        check(s, f, out)
        if b is not None: frames(b, f, out); out.inc("bodies")
        seen.append((f, s, b)); out.inc("files read")
    for f, s, b in seen:
        check(s, f, out)
        if rng.random() < .5: roundtrip(s, f, out)
        if b is not None: frames(b, f, out)
    out.inc("distinct")
    if seen: out.sample({"nodes": seen[0][0].nn, "modes": seen[0][0].nq, "lines": len(seen[0][0].lines), "history": len(seen)})

def case(mode):
    return lambda out, rng, idx, tier: history(out, rng, idx, tier, .15 if mode == "read" else .75)
if __name__ == "__main__":
    worker.run("sid " + sys.argv[1], case(sys.argv[1]), sys.argv[2:], 60)
