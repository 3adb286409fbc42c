"""Online linear learners: prediction, update rules, truncation, growth of the dimension. clf_num_ is 1 (two classes) or a
fixed number of unrolled classes (labelled bounded); dimension, examples, weights and parameters are arbitrary."""
import z3
MODEL = ["src/sol/model/*.cc", "src/sol/model/olm/*.cc", "src/sol/loss/*.cc", "src/sol/util/*.cc", "src/sol/pario/[bdfs]*.cc", "external/json/jsoncpp.cpp"]
from irv import llvmir as ir
from irv.engine import *
from irv.contract import Contract
from irv.views import *
from specs.ops import Sparse, row, add, sub, mul, div, neg, c_, sq, sqrt, trunc, abs_, gt, F, F32

def const_fn(mod, name):
    f = mod.func(name)
    v = f.blocks[0].insts[-1][1].ops[0] if isinstance(f.blocks[0].insts[-1], tuple) else f.blocks[0].insts[-1].ops[0]
    if v.kind != "int": raise Unsupported("offset %s" % name)
    return v.x
def off(E, n): return const_fn(E.mod, "o_" + n)
def size(E, c): return const_fn(E.mod, "z_" + c)
i2f = lambda i: F.conv("sitofp", i, F32)
oeq = lambda a, b: F.cmp("oeq", a, b)
def pow_h(E, st, a, I):
    """the learning-rate schedule selected by set_power_t is a pure function of iteration and power"""
    return POW(a[0], a[1])
POW = z3.Function("pow_t", z3.BitVecSort(32), F32, F32)

class Model:
    """ghost view of a learner object"""
    def __init__(self, E, st, cls, K, vecs=(), arrs=(), reals=(), fn=None, name="model"):
        """vecs: inline Vector members; arrs: arrays of K vectors; reals: float members; each 'CLASS_field'"""
        self.K = K; self.E = E
        self.r = E.new_struct(st, name, size(E, cls)); p = Ptr(self.r); self.p = p
        o = lambda n: off(E, "OnlineLinearModel_" + n)
        E.store(st, p, VTab("Model"), ir.PTR)
        E.store(st, p.at(o("clf")), bv(K, 32), ir.I32)
        self.g = E.new_array(st, "g", ir.F32, bv(K)); E.store(st, p.at(o("g")), Ptr(self.g), ir.PTR)
        self.arrp = {}
        for a in ("OnlineLinearModel_w",) + tuple(arrs):
            r = E.new_struct(st, a.split("_")[-1], 32 * K); r.heap = True; r.tag = "array"
            for c in range(K): self.mkv(E, st, "%s%d" % (a.split("_")[-1], c), r, 32 * c)
            E.store(st, p.at(off(E, a)), Ptr(r), ir.PTR); self.arrp[a.split("_")[-1]] = Ptr(r)
        self.vecp = {}
        for a in vecs: self.vecp[a.split("_")[-1]] = self.mkv(E, st, a.split("_")[-1], self.r, off(E, a))
        self.reals = {a.split("_")[-1]: off(E, a) for a in tuple(reals) + ("OnlineLinearModel_eta", "OnlineLinearModel_beta")}
        self.ints = {n: o(n) for n in ("t", "t0", "dim")}
        if cls == "STG": self.ints["k"] = off(E, "STG_k")
    def mkv(self, E, st, name, r, o):
        q = row(E, st, mk_vec(E, st, name, ir.F32, "buf", r=r, off=o)); d = dict(st.mem[r]); d[o] = vptr(VT["f"]); st.mem[r] = d
        return q
class View:
    def __init__(self, m, E, st):
        self.m = m; self.st = st; self.a = {n: [Vec(E, st, p.at(32 * c), ir.F32) for c in range(m.K)] for n, p in m.arrp.items()}
        self.v = {n: Vec(E, st, p, ir.F32) for n, p in m.vecp.items()}
        self.f = {n: E.load(st, m.p.at(o), ir.F32) for n, o in m.reals.items()}
        self.i = {n: E.load(st, m.p.at(o), ir.I32) for n, o in m.ints.items()}
        self.g = [z3.Select(st.mem[m.g].a, bv(c)) for c in range(m.K)]
    def vecs(self): return [v for l in self.a.values() for v in l] + list(self.v.values())
def zx(x): return z3.ZeroExt(32, x)

class ModelC(Contract):
    cls = "OnlineLinearModel"; vecs = (); arrs = (); reals = (); cases = ("two classes",)
    opts = {"timeout": 15000, "cand_timeout": 8000, "no_merge": True, "budget": 200}
    inrange = True        # features lie within the dimension, which is what Iterate establishes
    def K(self, case): return int(case.split()[0]) if case[0].isdigit() else 1
    def mk(self, E, st, case):
        m = Model(E, st, self.cls, self.K(case), self.vecs, self.arrs, self.reals)
        if self.pow: E.store(st, m.p.at(off(E, "OGD_pow")), FuncPtr("v_pow"), ir.PTR)
        E.store(st, m.p.at(off(E, "OnlineLinearModel_reg")), NULL, ir.PTR)
        return m
    pow = False
    def example(self, E, st, case):
        n = "no features" in case
        x = mk_svec(E, st, "x", "null" if n else "buf", r=E.new_struct(st, "dp", 40))
        if not n:
            for o in (8, 16): row(E, st, E.load(st, x.at(o), ir.PTR))
        return x
    def setup(self, E, st, case):
        self.case = case; self.m = m = self.mk(E, st, case); self.x = x = self.example(E, st, case)
        return [m.p, x] + self.more(E, st)
    def more(self, E, st): return []
    def bind(self, E, st, a): return {"o": View(self.m, E, st), "x": Sparse(E, st, self.x), "args": a}
    def pre(self, E, st, e):
        o, x = e["o"], e["x"]; f = []
        d = zx(o.i["dim"])
        for v in o.vecs(): f += v.wf() + [("vectors span the dimension", v.size == d)]
        f += [("dimension", z3.ULE(1, d)), ("iteration count", z3.And(o.i["t"] >= 1, o.i["t"] < (1 << 30)))] + x.wf()
        if x.I is not None:
            p = z3.BitVec("pr", 64)
            f += [("feature indexes start at one", z3.ForAll([p], z3.Implies(z3.ULT(p, x.n), z3.ULE(1, x.idx(p))), patterns=[z3.Select(x.I, p)]))]
            if self.inrange: f += [("features within the dimension", z3.ForAll([p], z3.Implies(z3.ULT(p, x.n), z3.ULT(x.idx(p), d)), patterns=[z3.Select(x.I, p)]))]
        self.folds(E, e)
        return f
    def sum(self, E, e, name, n, term):
        """a ghost left-to-right sum"""
        D = z3.Function("sum_" + name, BV64, F32); E.defs.append(D(0) == c_(0.0))
        if not hasattr(E, "sums"): E.sums = []
        E.sums.append((D, lambda k: [D(k + 1) == add(D(k), term(k))] if term is not None else []))
        return D(n)
    def folds(self, E, e): pass
    def wdata(self, e, *names):
        return {v.dr for n in names for v in (e["o"].a.get(n) or [e["o"].v[n]])}
    def cells(self, *names):
        m = self.m; return {(m.r, m.reals.get(n, m.ints.get(n))) for n in names}
    def vec_post(self, what, e, st, v, fn):
        """fn(j, has, xval) gives the new entry j"""
        x = e["x"]; A = st.mem[v.dr].a
        def body(j):
            h = x.has(j) if x.I is not None else FALSE; xv = x.val(x.pos(j)) if x.I is not None else c_(0.0)
            return z3.Select(A, j) == z3.If(z3.ULT(j, v.size), fn(j, h, xv), v.at(j))
        return (what, fa(1, body))
    def loop(self, L):
        E = L.engine; e = E.env; k = L.k; o = e["x"].trim_cands(L, zx(e["o"].i["dim"]))
        if self.inrange: o += [v == e["x"].n for v in L.phis.values() if isinstance(v, z3.ExprRef) and z3.is_bv(v) and v.size() == 64] + [k == 0]
        for D, unf in getattr(E, "sums", ()):
            L.head.pc = L.head.pc + unf(k)
            for s, _ in L.accs:
                if s.sort() == F32: o += [s == D(k)]
        return o + [s == c_(0.0) for s, _ in L.accs if s.sort() == F32]

class Predict(ModelC):
    """Predict and TrainPredict of the base learner"""
    inrange = False
    cases = ("two classes", "two classes, no features")
    def __init__(self, n, many=True):
        self.n = n; self.title = "%s: linear scores, label, nothing else changes" % {"predict": "OnlineLinearModel::Predict", "trainpredict": "OnlineLinearModel::TrainPredict"}[n]
    def target(self, mod): return "v_" + self.n
    def more(self, E, st):
        self.pr = E.new_array(st, "predicts", ir.F32, bv(self.m.K)); return [Ptr(self.pr)]
    def folds(self, E, e):
        x = e["x"]; e["N"] = N = z3.BitVec("N", 64)
        e["s"] = [self.sum(E, e, "w%d" % c, N if x.I is not None else bv(0), (lambda k, w=w: mul(w.at(x.idx(k)), x.val(k))) if x.I is not None else None) for c, w in enumerate(e["o"].a["w"])]
    def pre(self, E, st, e):
        f = ModelC.pre(self, E, st, e); x = e["x"]; d = zx(e["o"].i["dim"]); p = z3.BitVec("pn", 64)
        f.append(("N counts the features within the dimension", z3.ULE(e["N"], x.n)))
        if x.I is not None: f.append(("N", z3.ForAll([p], z3.Implies(z3.ULT(p, x.n), z3.ULT(p, e["N"]) == z3.ULT(x.idx(p), d)), patterns=[z3.Select(x.I, p)])))
        return f
    def modifies(self, E, st, e): return {self.pr}
    def post(self, E, old, st, e, ret):
        w = e["o"].a["w"]; P = st.mem[self.pr].a; s = [add(e["s"][c], w[c].at(bv(0))) for c in range(self.m.K)]
        f = [("score of class %d is the weighted sum over the example's known features plus the bias" % c, z3.Select(P, bv(c)) == s[c]) for c in range(self.m.K)]
        if self.m.K == 1: f.append(("label is the sign of the score", ret == z3.If(F.cmp("oge", s[0], c_(0.0)), bv(1, 32), bv(-1, 32))))
        return f
from specs.loss import MaxElement, fin, LE
from irv.floats import FloatLemT, IEEELemmas
class PredictMany(Predict):
    """several classes, unrolled: the label is a class with the highest score"""
    def __init__(self, n): Predict.__init__(self, n); self.title += " (2 classifiers, unrolled)"; self.cases = ("2 classifiers", "2 classifiers, no features")
    def pre(self, E, st, e): return Predict.pre(self, E, st, e) + [("scores are finite", fin(add(e["s"][c], e["o"].a["w"][c].at(bv(0))))) for c in range(2)]
    def post(self, E, old, st, e, ret):
        P = st.mem[self.pr].a; r = z3.SignExt(32, ret)
        return Predict.post(self, E, old, st, e, ret) + [("label is a class", z3.ULT(r, bv(self.m.K)))] + [("class %d does not score higher than the label" % d, LE(z3.Select(P, bv(d)), z3.Select(P, r))) for d in range(self.m.K)]
def contracts_c05(): return [IEEELemmas(), MaxElement()] + [C(n) for n in ("predict", "trainpredict") for C in (Predict, PredictMany)]

lt = lambda a, b: F.cmp("olt", a, b)
one, two, four, eight, half = (c_(v) for v in (1.0, 2.0, 4.0, 8.0, 0.5))
def chain(f, *a):
    for x in a[1:]: a = (f(a[0], x),) + a[1:]
    return a[0]
muls = lambda *a: chain(mul, *a)
class Rule:
    """what one learner's Update does. eta(o, S, loss): learning rate; per class c and entry: dict array -> (bias entry, feature entry)"""
    def __init__(self, cls, arrs=(), vecs=(), reals=(), eta=None, entry=None, vec=None, sums=None, pow=False, loss=True):
        self.cls = cls; self.arrs = arrs; self.vecs = vecs; self.reals = reals; self.eta = eta; self.entry = entry; self.vec = vec; self.sums = sums; self.pow = pow
def axpy(w="w", sgn=sub, bias=None):
    """entry -= eta*g*x with the bias learned at its own rate"""
    return lambda n, o, c, eta, j, x: {w: (sgn(o.a[w][c].at(bv(0)), muls(o.f["beta"], eta, o.g[c])), sgn(o.a[w][c].at(j), mul(mul(eta, o.g[c]), x)))}
def axpy1(w, bias): return lambda n, o, c, eta, j, x: {w: (bias(o, c, eta), sub(o.a[w][c].at(j), mul(o.g[c], x)))}
norm = lambda o, x, c: (lambda k: sq(x.val(k)))
def e_pa(o, S, loss): return div(loss, mul(o.f["coeff"], S[0]))
def e_pa1(o, S, loss): q = e_pa(o, S, loss); return z3.If(lt(q, o.f["C"]), q, o.f["C"])
def e_pa2(o, S, loss): return div(loss, add(mul(o.f["coeff"], S[0]), div(half, o.f["C"])))
def e_arow(o, S, loss):
    b = c_(0.0)
    for c, g in enumerate(o.g):
        g2 = mul(g, g); n = add(b, mul(S[c], g2)); n = z3.If(oeq(o.f["beta"], c_(0.0)), n, add(n, mul(o.a["S"][c].at(bv(0)), g2)))
        b = z3.If(oeq(g, c_(0.0)), b, n)
    return mul(loss, div(one, add(b, o.f["r"])))
def conf(o, c, eta, j, x, sig, sig0):
    S = o.a["S"][c]; S0 = S.at(bv(0)); w = o.a["w"][c]
    return {"w": (sub(w.at(bv(0)), muls(o.f["beta"], eta, o.g[c], S0)), sub(w.at(j), muls(eta, o.g[c], S.at(j), x))), "S": (sig0(S0), sig(S.at(j), sq(x)))}
def n_arow(n, o, c, eta, j, x):
    r1 = div(mul(o.g[c], o.g[c]), o.f["r"])
    return conf(o, c, eta, j, x, lambda s, x2: div(s, add(one, mul(mul(s, x2), r1))), lambda s: div(s, add(one, mul(s, r1))))
def e_cw(o, S, loss):
    phi, V = o.f["phi"], o.f["V"]; M = sub(mul(phi, V), loss); t = add(one, muls(two, phi, M))
    return div(add(neg(t), sqrt(sub(mul(t, t), mul(mul(eight, phi), sub(M, mul(phi, V)))))), muls(four, phi, V))
def n_cw(n, o, c, eta, j, x):
    t = mul(mul(two, eta), o.f["phi"])
    return conf(o, c, eta, j, x, lambda s, x2: div(s, add(one, mul(mul(t, s), x2))), lambda s: div(s, add(one, mul(t, s))))
def n_ada(n, o, c, eta, j, x):
    d = o.f["delta"]; H = o.a["H"][c]; w = o.a["w"][c]; g = o.g[c]
    h = lambda H, gx2: add(sqrt(add(sq(sub(H, d)), gx2)), d)
    h0 = h(H.at(bv(0)), sq(g)); hj = h(H.at(j), sq(mul(g, x)))
    return {"H": (h0, hj), "w": (sub(w.at(bv(0)), div(muls(o.f["beta"], eta, g), h0)), sub(w.at(j), div(muls(eta, g, x), hj)))}
def n_adarda(n, o, c, eta, j, x):
    d = n_ada(n, o, c, eta, j, x); u = o.a["ut"][c]; g = o.g[c]; u0 = add(u.at(bv(0)), g); uj = add(u.at(j), mul(g, x))
    return {"H": d["H"], "ut": (u0, uj), "w": (mul(o.a["w"][c].at(bv(0)), o.f["beta"]), div(mul(neg(eta), uj), d["H"][1]))}
def e_eccw(o, S, loss):
    phi, V, psi, xi = (o.f[n] for n in ("phi", "V", "psi", "xi")); M = sub(mul(phi, V), loss); t = muls(M, phi, phi)
    return div(add(mul(neg(M), psi), sqrt(add(mul(mul(t, t), c_(0.25)), muls(V, phi, phi, xi)))), mul(V, xi))
def n_eccw(n, o, c, eta, j, x):
    phi, V = o.f["phi"], o.f["V"]
    u = mul(add(muls(neg(eta), V, phi), sqrt(add(muls(eta, eta, V, V, phi, phi), mul(V, four)))), half); t = muls(eta, phi, sqrt(mul(u, u)))
    return conf(o, c, eta, j, x, lambda s, x2: div(s, add(one, mul(mul(t, s), x2))), lambda s: div(s, add(one, mul(t, s))))
RULES = [Rule("Perceptron", eta=lambda o, S, l: one, entry=axpy1("w", lambda o, c, eta: sub(o.a["w"][c].at(bv(0)), mul(mul(o.f["beta"], eta), o.g[c])))),
  Rule("OGD", reals=("OGD_eta0", "OGD_power"), eta=lambda o, S, l: div(o.f["eta0"], POW(o.i["t"], o.f["power"])), entry=axpy(), pow=True),
  Rule("PA", reals=("PA_coeff",), sums=norm, eta=e_pa, entry=axpy()),
  Rule("PAI", reals=("PA_coeff", "PAI_C"), sums=norm, eta=e_pa1, entry=axpy()),
  Rule("PAII", reals=("PA_coeff", "PAII_C"), sums=norm, eta=e_pa2, entry=axpy()),
  Rule("RDA", arrs=("RDA_ut",), eta=None, entry=lambda n, o, c, eta, j, x: {"ut": (add(o.a["ut"][c].at(bv(0)), o.g[c]), add(o.a["ut"][c].at(j), mul(o.g[c], x)))}),
  Rule("SOP", arrs=("SOP_v",), vecs=("SOP_X",), eta=lambda o, S, l: one, entry=axpy1("v", lambda o, c, eta: sub(o.a["v"][c].at(bv(0)), mul(mul(o.f["beta"], eta), o.g[c]))), vec={"X": lambda o, j, x: add(o.v["X"].at(j), sq(x))}),
  Rule("AROW", arrs=("AROW_S",), reals=("AROW_r",), sums=lambda o, x, c: (lambda k: mul(o.a["S"][c].at(x.idx(k)), sq(x.val(k)))), eta=e_arow, entry=n_arow),
  Rule("CW", arrs=("CW_S",), reals=("CW_phi", "CW_V"), eta=e_cw, entry=n_cw),
  Rule("ECCW", arrs=("ECCW_S",), reals=("ECCW_phi", "ECCW_V", "ECCW_psi", "ECCW_xi"), eta=e_eccw, entry=n_eccw),
  Rule("AdaFOBOS", arrs=("AdaFOBOS_H",), reals=("AdaFOBOS_delta",), entry=n_ada),
  Rule("AdaRDA", arrs=("AdaRDA_H", "AdaRDA_ut"), reals=("AdaRDA_delta",), entry=n_adarda)]

class Update(ModelC):
    def __init__(self, R, cases=("two classes", "two classes, no features")):
        self.R = R; self.cls = R.cls; self.arrs = R.arrs; self.vecs = R.vecs; self.reals = R.reals; self.pow = R.pow; self.cases = cases
        self.title = "%s::Update%s" % (R.cls, "" if cases[0][0] == "t" else " (unrolled classifiers)")
    def target(self, mod): return "u_" + self.cls
    def more(self, E, st):
        self.pr = E.new_array(st, "predicts", ir.F32, bv(self.m.K)); self.loss = z3.Const("loss", F32); return [Ptr(self.pr), self.loss]
    def folds(self, E, e):
        x = e["x"]; e["S"] = []
        if self.R.sums:
            for c in range(self.m.K): e["S"].append(self.sum(E, e, "s%d" % c, x.n if x.I is not None else bv(0), self.R.sums(e["o"], x, c) if x.I is not None else None))
    def eta(self, e): return self.R.eta(e["o"], e["S"], self.loss) if self.R.eta else e["o"].f["eta"]
    def touched(self, e): return list(self.R.entry(self, e["o"], 0, self.eta(e), bv(0), c_(0.0)))
    def modifies(self, E, st, e): return self.wdata(e, *(self.touched(e) + list(self.R.vec or {}))) | (self.cells("eta") if self.R.eta else set())
    def post(self, E, old, st, e, ret):
        o = e["o"]; eta = self.eta(e); n = View(self.m, E, st); f = []
        if self.R.eta: f.append(("learning rate", n.f["eta"] == eta))
        for a in self.touched(e):
            for c in range(self.m.K):
                v = o.a[a][c]; nz = z3.Not(oeq(o.g[c], c_(0.0)))
                def ent(j, h, x):
                    b, fe = self.R.entry(self, o, c, eta, j, x)[a]
                    return z3.If(nz, z3.If(j == 0, b, z3.If(h, fe, v.at(j))), v.at(j))
                f.append(self.vec_post("%s of class %d follows the rule at the bias and the example's features, is unchanged elsewhere and without gradient" % (a, c), e, st, v, ent))
        for a, fn in (self.R.vec or {}).items(): f.append(self.vec_post("%s follows the rule at the example's features" % a, e, st, o.v[a], lambda j, h, x: z3.If(h, fn(o, j, x), o.v[a].at(j))))
        return f
def contracts_c10(): return [Update(R) for R in RULES] + [Update(R, ("2 classifiers",)) for R in RULES if R.cls in ("Perceptron", "OGD", "PA", "RDA")]

# ---- lazy truncation (TrainPredict) and completion (EndTrain)
D64 = F.sort(8)
dadd = lambda a, b: F.bin("fadd", a, b)
def tplus(it, d): return F.conv("fptrunc", dadd(F.conv("sitofp", simp(it + bv(d, 32)), D64), F.const(1e-20, 8)), F32)   # iteration count, kept off zero
i1 = lambda o: i2f(simp(o.i["t"] - 1))
class BaseTrainPredict(Contract):
    """callers rely on: only the scores are written"""
    title = "OnlineLinearModel::TrainPredict writes only the scores"
    def target(self, mod): return mod.find(r"^sol::model::OnlineLinearModel::TrainPredict\(")
    def __init__(self): self.p = Predict("trainpredict"); self.cases = self.p.cases; self.opts = self.p.opts
    def setup(self, E, st, case): a = self.p.setup(E, st, case); self.pr = self.p.pr; E.tp_inner = 1; return a
    def bind(self, E, st, a):
        if getattr(E, "tp_inner", 0): return self.p.bind(E, st, a)
        E.tpl = (a, st.copy())
        return {"args": a}
    def pre(self, E, st, e): return self.p.pre(E, st, e) if getattr(E, "tp_inner", 0) else []
    def modifies(self, E, st, e): return {self.pr} if getattr(E, "tp_inner", 0) else {e["args"][2].r}
    def havoc(self, E, st, e, rt):
        r = e["args"][2].r; c = st.mem[r]; st.mem[r] = ArrC(E.fresh_array("scores", ir.F32), c.n); E.note_write(r, "a"); l = z3.BitVec(E.name("label"), 32); E.tp = getattr(E, "tp", []) + [(l,) + E.tpl]; return l
    def post(self, E, old, st, e, ret): return self.p.post(E, old, st, e, ret) if getattr(E, "tp_inner", 0) else []
    def loop(self, L): return self.p.loop(L)
class Lazy(ModelC):
    """before predicting, a learner brings the weights of the example's features up to date"""
    def __init__(self, cls, w, vecs=(), arrs=(), reals=(), eta=None, extra=None, cases=("two classes", "two classes, no features")):
        self.cls = cls; self.w = w; self.vecs = vecs; self.arrs = arrs; self.reals = reals; self.eta_ = eta; self.extra = extra; self.cases = cases
        self.title = "%s::TrainPredict brings the example's weights up to date, then predicts%s" % (cls, "" if cases[0][0] == "t" else " (unrolled classifiers)")
    def target(self, mod): return "t_" + self.cls
    def more(self, E, st):
        self.pr = E.new_array(st, "predicts", ir.F32, bv(self.m.K)); return [Ptr(self.pr)]
    def modifies(self, E, st, e): return self.wdata(e, "w", *(self.extra or {})) | {self.pr} | (self.cells("eta") if self.eta_ else set())
    def post(self, E, old, st, e, ret):
        o = e["o"]; eta = self.eta_(o) if self.eta_ else o.f["eta"]; n = View(self.m, E, st)
        tp = [(a, s) for l, a, s in getattr(E, "tp", []) if l.eq(ret)]
        f = [("the base prediction is made and its label returned", TRUE if tp else FALSE)]
        for a, s in tp: f.append(("the base prediction sees the final weights", z3.And(*([TRUE if s.mem[v.dr].a.eq(st.mem[v.dr].a) else FALSE for v in n.a["w"]] + [TRUE if a[0].r is self.m.r and a[1].r is self.x.r and a[2].r is self.pr else FALSE]))))
        if self.eta_: f.append(("learning rate", n.f["eta"] == eta))
        for c in range(self.m.K):
            v = o.a["w"][c]
            f.append(self.vec_post("weights of class %d: bias and the example's features are brought up to date, the rest is unchanged" % c, e, st, v, lambda j, h, x: (lambda b, fe: z3.If(j == 0, b, z3.If(h, fe, v.at(j))))(*self.w(o, c, eta, j, x))))
        for a, fn in (self.extra or {}).items(): f.append(self.vec_post("%s of the example's features and the bias" % a, e, st, o.v[a], lambda j, h, x: (lambda b, fe: z3.If(j == 0, b, z3.If(h, fe, o.v[a].at(j))))(*fn(o, j))))
        return f
def l_fobos(o, c, eta, j, x):
    w = o.a["w"][c]; return trunc(w.at(bv(0)), mul(mul(o.f["beta"], eta), o.f["lambda"])), trunc(w.at(j), mul(mul(eta, o.f["lambda"]), sub(i1(o), o.v["lut"].at(j))))
def l_ada(o, c, eta, j, x):
    w = o.a["w"][c]; H = o.a["H"][c]; return trunc(w.at(bv(0)), div(mul(mul(o.f["beta"], eta), o.f["lambda"]), H.at(bv(0)))), trunc(w.at(j), div(mul(mul(eta, o.f["lambda"]), sub(i1(o), o.v["lut"].at(j))), H.at(j)))
def l_rda(o, c, eta, j, x): u = o.a["ut"][c]; return mul(neg(mul(o.f["beta"], eta)), u.at(bv(0))), mul(neg(eta), u.at(j))
def l_trda(th):
    def f(o, c, eta, j, x): u = o.a["ut"][c]; return mul(neg(mul(o.f["beta"], eta)), trunc(u.at(bv(0)), th(o))), mul(neg(eta), trunc(u.at(j), th(o)))
    return f
def l_adarda(o, c, eta, j, x):
    u = o.a["ut"][c]; H = o.a["H"][c]; th = mul(o.f["lambda"], i2f(o.i["t"]))
    return div(mul(neg(mul(o.f["beta"], eta)), trunc(u.at(bv(0)), th)), H.at(bv(0))), div(mul(neg(eta), trunc(u.at(j), th)), H.at(j))
def l_sop(o, c, eta, j, x): w = o.a["w"][c]; return w.at(bv(0)), div(o.a["v"][c].at(j), add(add(o.f["a"], o.v["X"].at(j)), sq(x)))
LAZY = [Lazy("FOBOS_L1", l_fobos, vecs=("FOBOS_L1_lut",), reals=("FOBOS_L1_lambda",)),
  Lazy("AdaFOBOS_L1", l_ada, vecs=("AdaFOBOS_L1_lut",), arrs=("AdaFOBOS_H",), reals=("AdaFOBOS_L1_lambda",)),
  Lazy("RDA", l_rda, arrs=("RDA_ut",), reals=("RDA_sigma",), eta=lambda o: div(one, mul(tplus(o.i["t"], -1), o.f["sigma"]))),
  Lazy("RDA_L1", l_trda(lambda o: mul(o.f["lambda"], tplus(o.i["t"], -1))), arrs=("RDA_ut",), reals=("RDA_sigma", "RDA_L1_lambda"), eta=lambda o: div(one, mul(tplus(o.i["t"], -1), o.f["sigma"]))),
  Lazy("ERDA_L1", l_trda(lambda o: add(mul(o.f["lambda"], tplus(o.i["t"], -1)), muls(o.f["sigma"], o.f["rou"], sqrt(tplus(o.i["t"], -1))))), arrs=("RDA_ut",), reals=("RDA_sigma", "ERDA_L1_lambda", "ERDA_L1_rou"), eta=lambda o: div(one, mul(sqrt(tplus(o.i["t"], -1)), o.f["sigma"]))),
  Lazy("AdaRDA_L1", l_adarda, arrs=("AdaRDA_H", "AdaRDA_ut"), reals=("AdaRDA_L1_lambda",)),
  Lazy("SOP", l_sop, arrs=("SOP_v",), vecs=("SOP_X",), reals=("SOP_a",))]

VT_LAZY = "_ZTVN3sol5model23LazyOnlineL1RegularizerE"; VT_L1 = "_ZTVN3sol5model19OnlineL1RegularizerE"
class EndT(ModelC):
    """the end of training completes the truncation of every weight, then drops the negligible ones"""
    cases = ("two classes",)
    def __init__(self, cls, w, vecs=(), arrs=(), reals=(), eta=None, vt=None, cases=("two classes",)):
        self.cls = cls; self.w = w; self.vecs = vecs; self.arrs = arrs; self.reals = reals + ((cls + "_thr",) if vt else ()); self.eta_ = eta; self.vt = vt; self.cases = cases
        self.title = "%s::EndTrain completes the weights%s" % (cls, "" if cases[0][0] == "t" else " (unrolled classifiers)")
    def target(self, mod): return "e_" + self.cls
    def mk(self, E, st, case):
        m = ModelC.mk(self, E, st, case)
        if self.vt:
            o = off(E, self.cls + "_l1"); E.store(st, m.p.at(o), VTab(self.vt, 16), ir.PTR); E.store(st, m.p.at(off(E, "OnlineLinearModel_reg")), m.p.at(o), ir.PTR)
        return m
    def setup(self, E, st, case):
        self.case = case; self.m = m = self.mk(E, st, case); self.x = None
        a, b = z3.Consts("a b", F32); t = F.fn("fmul", F32, F32, F32)(neg(a), b); E.defs.append(z3.ForAll([a, b], t == mul(neg(a), b), patterns=[t]))   # IEEE products are sign symmetric
        return [m.p]
    def bind(self, E, st, a): return {"o": View(self.m, E, st), "args": a}
    def pre(self, E, st, e):
        o = e["o"]; f = []; d = zx(o.i["dim"])
        for v in o.vecs(): f += v.wf() + [("vectors span the dimension", v.size == d)]
        return f + [("dimension", z3.ULE(1, d)), ("iteration count", z3.And(o.i["t"] >= 0, o.i["t"] < (1 << 30)))]
    def modifies(self, E, st, e): return self.wdata(e, "w") | (self.cells("eta") if self.eta_ else set()) | {(self.m.r, off(E, "OnlineLinearModel_mu"))}
    def loop(self, L): return []
    def post(self, E, old, st, e, ret):
        o = e["o"]; eta = self.eta_(o) if self.eta_ else o.f["eta"]; n = View(self.m, E, st); f = []
        if self.eta_: f.append(("learning rate", n.f["eta"] == eta))
        for c in range(self.m.K):
            v = o.a["w"][c]; A = st.mem[v.dr].a
            def ent(j):
                b, fe = self.w(o, c, eta, j); y = z3.If(j == 0, b, fe)
                if self.vt: t = o.f["thr"]; y = z3.If(z3.And(lt(y, t), gt(y, neg(t))), c_(0.0), y)
                return z3.Select(A, j) == z3.If(z3.ULT(j, v.size), y, v.at(j))
            f.append(("every weight of class %d is completed" % c, fa(1, ent)))
        return f
zero = bv(0)
def ee(f): return lambda o, c, eta, j: (f(o, c, eta, zero, True), f(o, c, eta, j, False))
tf = lambda o: i2f(o.i["t"])
def e_fobos(o, c, eta, j, b): w = trunc(o.a["w"][c].at(j), mul(mul(eta, o.f["lambda"]), sub(tf(o), o.v["lut"].at(j)))); return trunc(w, mul(mul(o.f["beta"], eta), o.f["lambda"])) if b else w
def e_stg(o, c, eta, j, b): return trunc(o.a["w"][c].at(j), mul(mul(eta, o.f["lambda"]), sub(tf(o), o.v["ltt"].at(j))))
def e_adaf(o, c, eta, j, b): H = o.a["H"][c]; w = trunc(o.a["w"][c].at(j), div(mul(mul(eta, o.f["lambda"]), sub(tf(o), o.v["lut"].at(j))), H.at(j))); return trunc(w, div(mul(mul(o.f["beta"], eta), o.f["lambda"]), H.at(zero))) if b else w
def e_rda(th): return lambda o, c, eta, j, b: mul(neg(mul(o.f["beta"], eta) if b else eta), trunc(o.a["ut"][c].at(j), th(o)) if th else o.a["ut"][c].at(j))
def e_adar(th):
    def f(o, c, eta, j, b): u = o.a["ut"][c].at(j); w = div(mul(neg(eta), trunc(u, th(o)) if th else u), o.a["H"][c].at(j)); return mul(w, o.f["beta"]) if b else w
    return f
t0 = lambda o: tplus(o.i["t"], 0)
ENDS = [EndT("STG", ee(e_stg), vecs=("STG_ltt",), reals=("STG_lambda",), vt=VT_L1), EndT("FOBOS_L1", ee(e_fobos), vecs=("FOBOS_L1_lut",), reals=("FOBOS_L1_lambda",), vt=VT_LAZY),
  EndT("AdaFOBOS_L1", ee(e_adaf), vecs=("AdaFOBOS_L1_lut",), arrs=("AdaFOBOS_H",), reals=("AdaFOBOS_L1_lambda",), vt=VT_LAZY),
  EndT("RDA", ee(e_rda(None)), arrs=("RDA_ut",), reals=("RDA_sigma",), eta=lambda o: div(one, mul(t0(o), o.f["sigma"]))),
  EndT("RDA_L1", ee(e_rda(lambda o: mul(o.f["lambda"], t0(o)))), arrs=("RDA_ut",), reals=("RDA_sigma", "RDA_L1_lambda"), eta=lambda o: div(one, mul(t0(o), o.f["sigma"])), vt=VT_L1),
  EndT("ERDA_L1", ee(e_rda(lambda o: add(mul(o.f["lambda"], t0(o)), muls(o.f["sigma"], o.f["rou"], sqrt(t0(o)))))), arrs=("RDA_ut",), reals=("RDA_sigma", "ERDA_L1_lambda", "ERDA_L1_rou"), eta=lambda o: div(one, mul(sqrt(t0(o)), o.f["sigma"])), vt=VT_L1),
  EndT("AdaRDA", ee(e_adar(None)), arrs=("AdaRDA_H", "AdaRDA_ut")),
  EndT("AdaRDA_L1", ee(e_adar(lambda o: mul(o.f["lambda"], tf(o)))), arrs=("AdaRDA_H", "AdaRDA_ut"), reals=("AdaRDA_L1_lambda",), vt=VT_L1),
  EndT("SOP", ee(lambda o, c, eta, j, b: div(o.a["v"][c].at(j), add(o.f["a"], o.v["X"].at(j)))), arrs=("SOP_v",), vecs=("SOP_X",), reals=("SOP_a",))]
def contracts_c11(): return [BaseTrainPredict()] + LAZY + ENDS

# ---- growth of the dimension
from specs.vec import VecResize
class Grow(ModelC):
    """update_dim: known entries survive, new ones start at their initial value, and the dimension never shrinks"""
    cases = ("two classes",)
    def __init__(self, cls, init, vecs=(), arrs=(), reals=(), ints=(), cases=("two classes",)):
        self.cls = cls; self.init = dict(init, w=None); self.vecs = vecs; self.arrs = arrs; self.reals = reals; self.cases = cases
        self.title = "%s::update_dim keeps what was learned%s" % (cls, "" if cases[0][0] == "t" else " (unrolled classifiers)")
    def target(self, mod): return "d_" + self.cls
    def setup(self, E, st, case):
        self.case = case; self.m = m = self.mk(E, st, case); self.x = None; self.d = z3.BitVec("new_dim", 32); return [m.p, self.d]
    def bind(self, E, st, a): return {"o": View(self.m, E, st), "args": a, "n": z3.BitVec("N", 64), "v": None}
    def pre(self, E, st, e):
        o = e["o"]; f = []; d = zx(o.i["dim"])
        for v in o.vecs(): f += v.wf() + [("vectors span the dimension", v.size == d)]
        return f + [("dimension", z3.ULE(1, d)), ("first iteration", z3.And(o.i["t0"] >= 0, o.i["t0"] < (1 << 24)))]
    def modifies(self, E, st, e):
        m = {(self.m.r, self.m.ints["dim"])}
        for v in e["o"].vecs(): m |= {v.sp.r, v.hp.r, v.dr}
        return m
    def loop(self, L): return []
    def post(self, E, old, st, e, ret):
        o = e["o"]; n = View(self.m, E, st); d = o.i["dim"]; nd = z3.If(z3.UGT(self.d, d), self.d, d)
        f = [("dimension is the larger one", n.i["dim"] == nd)]
        for name, l in list(o.a.items()) + [(k, [v]) for k, v in o.v.items()]:
            for c, v in enumerate(l):
                w = (n.a.get(name) or [n.v.get(name)])[c]; i = self.init[name]; i = i(o) if i else c_(0.0)
                f.append(("%s of class %d spans the dimension" % (name, c), z3.And(w.size == zx(nd), z3.ULE(w.size, w.cap))))
                f.append(("%s of class %d: known entries are kept" % (name, c), fa(1, lambda j: z3.Implies(z3.ULT(j, v.size), w.at(j) == v.at(j)))))
                f.append(("%s of class %d: new entries have their initial value" % (name, c), fa(1, lambda j: z3.Implies(z3.And(z3.ULE(v.size, j), z3.ULT(j, w.size)), w.at(j) == i))))
        return f
ff = lambda n: (lambda o: o.f[n])
GROWS = [Grow("OnlineLinearModel", {}), Grow("STG", {"ltt": lambda o: i2f(o.i["t0"])}, vecs=("STG_ltt",)), Grow("RDA", {"ut": None}, arrs=("RDA_ut",)), Grow("SOP", {"v": None, "X": None}, arrs=("SOP_v",), vecs=("SOP_X",)),
  Grow("AROW", {"S": lambda o: one}, arrs=("AROW_S",)), Grow("CW", {"S": ff("a")}, arrs=("CW_S",), reals=("CW_a",)), Grow("ECCW", {"S": ff("a")}, arrs=("ECCW_S",), reals=("ECCW_a",)),
  Grow("AdaFOBOS", {"H": ff("delta")}, arrs=("AdaFOBOS_H",), reals=("AdaFOBOS_delta",)), Grow("AdaRDA", {"H": ff("delta"), "ut": None}, arrs=("AdaRDA_H", "AdaRDA_ut"), reals=("AdaRDA_delta",))]
def contracts_c17(): return [VecResize("f")] + GROWS

# ---- bookkeeping of lazy truncation
class Reg(Contract):
    """LazyOnlineL1Regularizer: the time of the last update of every feature"""
    opts = {"timeout": 15000, "cand_timeout": 8000, "no_merge": True}
    cases = ("example", "no features")
    def obj(self, E, st):
        self.r = E.new_struct(st, "reg", size(E, "LazyOnlineL1Regularizer")); self.lo = off(E, "LazyOnlineL1Regularizer_lut"); self.p = Ptr(self.r)
        v = row(E, st, mk_vec(E, st, "lut", ir.F32, "buf", r=self.r, off=self.lo)); d = dict(st.mem[self.r]); d[self.lo] = vptr(VT["f"]); st.mem[self.r] = d
    def ex(self, E, st, case):
        x = mk_svec(E, st, "x", "null" if "no" in case else "buf", r=E.new_struct(st, "dp", 40))
        if "no" not in case:
            for o in (8, 16): row(E, st, E.load(st, x.at(o), ir.PTR))
        return x
    def bind(self, E, st, a): return {"v": Vec(E, st, self.p.at(self.lo), ir.F32), "x": Sparse(E, st, self.x), "t0": E.load(st, self.p.at(off(E, "LazyOnlineL1Regularizer_t0")), ir.F32), "n": z3.BitVec("N", 64)}
    def pre(self, E, st, e):
        f = e["v"].wf() + e["x"].wf() + [("dimension", z3.ULE(1, e["v"].size))]; x = e["x"]
        if x.I is not None:
            p = z3.BitVec("pr", 64); f += [("feature indexes start at one", z3.ForAll([p], z3.Implies(z3.ULT(p, x.n), z3.And(z3.ULE(1, x.idx(p)), z3.ULT(x.idx(p), (1 << 32) - 1))), patterns=[z3.Select(x.I, p)]))]
        return f
class RBegin(Reg):
    title = "LazyOnlineL1Regularizer::BeginIterate covers the example's features"
    def target(self, mod): return "r_begin"
    def setup(self, E, st, case): self.obj(E, st); self.x = self.ex(E, st, case); return [self.p, self.x]
    def modifies(self, E, st, e): v = e["v"]; return {v.sp.r, v.hp.r, v.dr}
    def post(self, E, old, st, e, ret):
        v, x = e["v"], e["x"]; w = Vec(E, st, self.p.at(self.lo), ir.F32)
        f = [("never shrinks", z3.UGE(w.size, v.size)), ("known times are kept", fa(1, lambda j: z3.Implies(z3.ULT(j, v.size), w.at(j) == v.at(j)))), ("new features start at the initial time", fa(1, lambda j: z3.Implies(z3.And(z3.ULE(v.size, j), z3.ULT(j, w.size)), w.at(j) == e["t0"])))]
        if x.I is not None: f.append(("every feature of the example is covered", fa(1, lambda p: z3.Implies(z3.ULT(p, x.n), z3.ULT(x.idx(p), w.size)))))
        return f
class REnd(Reg):
    title = "LazyOnlineL1Regularizer::EndIterate stamps exactly the example's features and the bias"
    def target(self, mod): return "r_end"
    def setup(self, E, st, case): self.obj(E, st); self.x = self.ex(E, st, case); self.t = z3.BitVec("t", 32); return [self.p, self.x, self.t]
    def pre(self, E, st, e):
        f = Reg.pre(self, E, st, e) + [("iteration count", z3.And(self.t >= 1, self.t < (1 << 30)))]; x = e["x"]
        if x.I is not None: p = z3.BitVec("pq", 64); f.append(("features are covered", z3.ForAll([p], z3.Implies(z3.ULT(p, x.n), z3.ULT(x.idx(p), e["v"].size)), patterns=[z3.Select(x.I, p)])))
        return f
    def modifies(self, E, st, e): return {e["v"].dr}
    def post(self, E, old, st, e, ret):
        v, x = e["v"], e["x"]; A = st.mem[v.dr].a; ts = i2f(simp(self.t - 1))
        return [("the example's features and the bias carry the previous iteration's time, the rest is unchanged", fa(1, lambda j: z3.Select(A, j) == z3.If(z3.Or(j == 0, x.has(j) if x.I is not None else FALSE), ts, v.at(j))))]
class RFinal(Reg):
    title = "OnlineL1Regularizer::FinalizeRegularization drops exactly the negligible weights"; cases = ("",)
    def target(self, mod): return "r_final"
    def setup(self, E, st, case): self.obj(E, st); self.w = row(E, st, mk_vec(E, st, "w", ir.F32, "buf")); return [self.p, self.w]
    def bind(self, E, st, a): return {"v": Vec(E, st, self.w, ir.F32), "t": E.load(st, self.p.at(off(E, "LazyOnlineL1Regularizer_thr")), ir.F32)}
    def pre(self, E, st, e): return e["v"].wf()
    def modifies(self, E, st, e): return {e["v"].dr}
    def post(self, E, old, st, e, ret):
        v, t = e["v"], e["t"]; A = st.mem[v.dr].a
        return [("weights within the threshold become zero, the others are kept", fa(1, lambda j: z3.Select(A, j) == z3.If(z3.And(z3.ULT(j, v.size), lt(v.at(j), t), gt(v.at(j), neg(t))), c_(0.0), v.at(j))))]
REGS = [RBegin(), REnd(), RFinal()]
def contracts_c11(): return [BaseTrainPredict(), VecResize("f")] + LAZY + ENDS + REGS

def stg_step(o, j):
    s = F.conv("fptosi", sub(i2f(simp(o.i["t"] - 1)), o.v["ltt"].at(j)), z3.BitVecSort(32)); k = o.i["k"]; return s, simp(s - SREM(s, k))
def l_stg(o, c, eta, j, x):
    w = o.a["w"][c]; s, q = stg_step(o, j)
    return trunc(w.at(bv(0)), mul(o.f["lambda"], mul(o.f["beta"], eta))), z3.If(s < o.i["k"], w.at(j), trunc(w.at(j), mul(i2f(q), mul(eta, o.f["lambda"]))))
def x_stg(o, j): s, q = stg_step(o, j); return i1(o), z3.If(s < o.i["k"], o.v["ltt"].at(j), add(o.v["ltt"].at(j), i2f(q)))
class LazySTG(Lazy):
    opts = dict(Lazy.opts, srem_uf=True)
    def pre(self, E, st, e): return Lazy.pre(self, E, st, e) + [("k is positive", e["o"].i["k"] >= 1)]
LAZY.append(LazySTG("STG", l_stg, vecs=("STG_ltt",), reals=("STG_lambda",), extra={"ltt": x_stg}))

# ---- one training step: Iterate against an arbitrary learner, loss and regularizer behind the virtual calls
EV = {"h_dim": 1, "h_begin": 2, "h_train": 3, "h_grad": 4, "h_update": 5, "h_end": 6}
def event(name, fn=None):
    def h(E, st, a, I):
        L = E.ghost_log; n = E.load(st, Ptr(L), ir.I64).as_long(); E.calls[(id(E), n, len(E.calls))] = None
        rec = E.recs.setdefault((n, name), []); rec.append(a); tag = len(rec) - 1
        E.store(st, Ptr(L).at(8 + 8 * n), bv(EV[name] * 1000 + tag), ir.I64); E.store(st, Ptr(L), bv(n + 1), ir.I64)
        return fn(E, st, a) if fn else None
    h.__doc__ = "the override behind %s changes nothing that Iterate itself maintains" % {"h_dim": "update_dim", "h_begin": "BeginIterate", "h_train": "TrainPredict", "h_grad": "Loss::gradient", "h_update": "Update", "h_end": "EndIterate"}[name]
    return h
def h_train(E, st, a):
    r = a[2].r; st.mem[r] = ArrC(E.fresh_array("scores", ir.F32), st.mem[r].n); E.note_write(r, "a"); return E.it.label
def h_grad(E, st, a):
    r = a[4].r; st.mem[r] = ArrC(E.fresh_array("grad", ir.F32), st.mem[r].n); E.note_write(r, "a"); return E.it.loss
ITEXT = {"h_dim": event("h_dim"), "h_begin": event("h_begin"), "h_train": event("h_train", h_train), "h_grad": event("h_grad", h_grad), "h_update": event("h_update"), "h_end": event("h_end")}
class Iterate(ModelC):
    title = "OnlineLinearModel::Iterate: one prediction, one loss, an update exactly when due, and the counters"
    cases = tuple("%s, %s" % (l, r) for l in ("update on loss", "update on mistakes") for r in ("regularized", "not regularized"))
    def target(self, mod): return "v_iterate"
    def K(self, case): return 1
    def setup(self, E, st, case):
        E.it = self; E.recs = {}; E.calls = {}; self.case = case; self.label = z3.BitVec("label", 32); self.loss = z3.Const("loss", F32)
        self.m = m = Model(E, st, "OnlineLinearModel", 1); o = lambda n: m.p.at(off(E, "OnlineLinearModel_" + n)); self.o = o
        E.store(st, m.p, VTab("_ZTV5Probe", 16), ir.PTR)
        self.l = E.new_struct(st, "loss", 16); E.store(st, Ptr(self.l), VTab("_ZTV9ProbeLoss", 16), ir.PTR); E.store(st, o("loss"), Ptr(self.l), ir.PTR)
        self.g = E.new_struct(st, "reg", 16); E.store(st, Ptr(self.g), VTab("_ZTV8ProbeReg", 16), ir.PTR); E.store(st, o("reg"), NULL if "not" in case else Ptr(self.g), ir.PTR)
        E.store(st, o("lazy"), bv(1 if "mistakes" in case else 0, 8), ir.I8); E.store(st, o("cost"), bv(0, 8), ir.I8)
        E.ghost_log = L = E.new_struct(st, "log", 120); E.store(st, Ptr(L), bv(0), ir.I64)
        for k in range(14): E.store(st, Ptr(L).at(8 + 8 * k), bv(0), ir.I64)
        self.x = self.example(E, st, ""); self.y = E.load(st, self.x.at(32), ir.I32); self.pr = E.new_array(st, "predicts", ir.F32, bv(1))
        return [m.p, self.x, Ptr(self.pr)]
    def bind(self, E, st, a):
        c = {n: E.load(st, self.o(n), t) for n, t in (("t", ir.I32), ("data", ir.I64), ("upd", ir.I64), ("active", ir.F32))}
        return {"x": Sparse(E, st, self.x), "c": c, "o": View(self.m, E, st)}
    def pre(self, E, st, e): return e["x"].wf() + [("iteration count", z3.And(e["c"]["t"] >= 0, e["c"]["t"] < (1 << 30))), ("no active learning", z3.Not(gt(e["c"]["active"], c_(0.0))))]
    def modifies(self, E, st, e): return {E.ghost_log, self.pr, self.m.g} | {(self.m.r, self.o(n).off.c) for n in ("t", "data", "upd")}
    def loop(self, L): return []
    def post(self, E, old, st, e, ret):
        c = e["c"]; n = E.load(st, Ptr(E.ghost_log), ir.I64).as_long(); ev = []
        for k in range(n): v = E.load(st, Ptr(E.ghost_log).at(8 + 8 * k), ir.I64).as_long(); nm = [q for q in EV if EV[q] == v // 1000][0]; ev.append((nm, E.recs[(k, nm)][v % 1000]))
        names = [q for q, _ in ev]; reg = "not" not in self.case; upd = "h_update" in names
        due = self.label != self.y if "mistakes" in self.case else gt(self.loss, c_(0.0))
        want = ["h_dim"] + (["h_begin"] if reg else []) + ["h_train", "h_grad"] + (["h_update"] if upd else []) + (["h_end"] if reg else [])
        f = [("grow, begin, predict, loss, update, end, each once and in this order", TRUE if names == want else FALSE), ("the learner is updated exactly when due", due if upd else z3.Not(due)),
             ("returns the label predicted before the update", ret == self.label), ("iteration counter", E.load(st, self.o("t"), ir.I32) == c["t"] + 1), ("example counter", E.load(st, self.o("data"), ir.I64) == c["data"] + 1),
             ("update counter", E.load(st, self.o("upd"), ir.I64) == c["upd"] + (1 if upd else 0))]
        P = lambda p, r: TRUE if isinstance(p, Ptr) and p.r is r and p.off.conc() and p.off.c == 0 else FALSE
        x = e["x"]
        for nm, a in ev:
            f.append(("%s gets this object" % nm, P(a[0], {"h_dim": self.m.r, "h_train": self.m.r, "h_update": self.m.r, "h_grad": self.l, "h_begin": self.g, "h_end": self.g}[nm])))
            if nm == "h_dim": f.append(("grows to the example's dimension", z3.And(z3.Implies(x.n == 0, a[1] == 0), z3.Implies(x.n != 0, a[1] == z3.Select(x.I, x.n - 1) + 1))))
            else: f.append(("%s gets the example" % nm, P(a[1], self.x.r)))
            if nm == "h_train": f.append(("scores", P(a[2], self.pr)))
            if nm == "h_grad": f.append(("loss of these scores and this label", z3.And(P(a[2], self.pr), a[3] == self.label, P(a[4], self.m.g), a[5] == bv(1, 32))))
            if nm == "h_update": f.append(("update uses these scores and this loss", z3.And(P(a[2], self.pr), a[3] == self.loss)))
            if nm == "h_end": f.append(("regularizer sees the iteration", a[2] == c["t"] + 1))
        return f
class Schedule(Contract):
    title = "OGD::set_power_t: learning-rate schedule"; opts = {"no_merge": True}
    def target(self, mod): return "v_sched"
    def setup(self, E, st, case): self.r = E.new_struct(st, "m", size(E, "OGD")); self.p = z3.Const("power", F32); self.t = z3.BitVec("t", 32); return [Ptr(self.r), self.p, self.t]
    def bind(self, E, st, a): return {}
    def pre(self, E, st, e): return [("power", z3.Or(F.cmp("oge", self.p, c_(0.0)), z3.Not(F.cmp("oge", self.p, c_(0.0)))))]
    def throws(self, E, st, e): return z3.Not(F.cmp("oge", self.p, c_(0.0)))
    def modifies(self, E, st, e): return {(self.r, off(E, "OGD_power")), (self.r, off(E, "OGD_pow"))}
    def post(self, E, old, st, e, ret):
        t = i2f(self.t); return [("1 at power 0, square root at 1/2, linear at 1, else the power", ret == z3.If(oeq(self.p, c_(0.0)), one, z3.If(oeq(self.p, half), sqrt(t), z3.If(oeq(self.p, one), t, z3.Function("m_pow" + str(F32), F32, F32, F32)(t, self.p)))))]
class TruncIEEE(Contract):
    title = "truncation in IEEE arithmetic: toward zero by the threshold, never past it"; floats = FloatIEEE; opts = {"timeout": 60000}
    def target(self, mod): return "v_trunc"
    def setup(self, E, st, case): self.a, self.b = z3.FPs("a b", z3.Float32()); return [self.a, self.b]
    def bind(self, E, st, a): return {}
    def pre(self, E, st, e): return [("numbers", z3.And(z3.Not(z3.fpIsNaN(self.a)), z3.Not(z3.fpIsInf(self.a)), z3.fpGEQ(self.b, z3.FPVal(0, z3.Float32())), z3.Not(z3.fpIsInf(self.b))))]
    def modifies(self, E, st, e): return set()
    def post(self, E, old, st, e, ret):
        a, b, z = self.a, self.b, z3.FPVal(0, z3.Float32()); ab = z3.fpAbs
        return [("zero exactly when the threshold reaches the weight", z3.fpEQ(ret, z) == z3.fpLEQ(ab(a), b)), ("the magnitude does not grow", z3.fpLEQ(ab(ret), ab(a))), ("the sign is kept", z3.Implies(z3.Not(z3.fpEQ(ret, z)), z3.fpIsNegative(ret) == z3.fpIsNegative(a))),
                ("the magnitude shrinks by the threshold", z3.Implies(z3.fpGT(ab(a), b), z3.fpEQ(ab(ret), z3.fpSub(z3.RNE(), ab(a), b))))]
def contracts_c10(): return [Iterate(), Schedule()] + [Update(R) for R in RULES] + [Update(R, ("2 classifiers",)) for R in RULES if R.cls in ("Perceptron", "OGD", "PA", "RDA")]
def contracts_c11(): return [BaseTrainPredict(), VecResize("f"), TruncIEEE()] + LAZY + ENDS + REGS
