"""The training and testing loops against an arbitrary learner and data source: every example of every batch is preprocessed and
processed once, in order, and the reported rate is mistakes over examples."""
import z3
from irv import llvmir as ir
from irv.engine import *
from irv.contract import Contract
from irv.views import *
from specs.model import off, size, F, F32
PRE = "_ZN3sol5model5Model10PreProcessERNS_5pario9DataPointE"
SEEN, MISM, POS, N, PREP, SHOWN = 0, 8, 16, 24, 32, 40
def gl(E, st, o): return E.load(st, Ptr(E.G, Off(o)), ir.I64)
def gs(E, st, o, v): E.store(st, Ptr(E.G, Off(o)), simp(v), ir.I64)
def at_pos(E, st, p, what, line):
    if not (isinstance(p, Ptr) and p.r is E.points): E.oblige(st, FALSE, "order", "%s gets an example of the batch" % what, line); raise PathEnd()
    key, fo = E.resolve_key(st, p, line, "use")
    pos = gl(E, st, POS); E.oblige(st, z3.And(key == pos, z3.ULT(pos, gl(E, st, N))) if fo == 0 else FALSE, "order", "%s gets each example of the batch once, in order" % what, line); return key
def h_next(E, st, a, I):
    """DataIter::Next gives batches of any sizes and contents, then null"""
    E.oblige(st, z3.And(gl(E, st, POS) == gl(E, st, N), gl(E, st, PREP) == gl(E, st, N)), "order", "the next batch is taken when all examples of the one before were used", I.line)
    s2 = st.copy(); n = z3.BitVec(E.name("n"), 32); s2.assume(n >= 0)
    E.store(s2, Ptr(E.mb, Off(off(E, "MiniBatch_n"))), n, ir.I32); gs(E, s2, N, z3.ZeroExt(32, n)); gs(E, s2, POS, bv(0)); gs(E, s2, PREP, bv(0))
    d = dict(s2.mem[E.points]); d[32] = (z3.Const(E.name("labels"), z3.ArraySort(BV64, z3.BitVecSort(32))), ir.I32); s2.mem[E.points] = d; E.note_write(E.points, 32)
    return [Outcome("ret", st, val=NULL), Outcome("ret", s2, val=Ptr(E.mb))]
def h_pre(E, st, a, I):
    """PreProcess changes only the example it is given (property C16)"""
    k = at_pos(E, st, a[1], "PreProcess", I.line); p = gl(E, st, PREP); E.oblige(st, p == k, "order", "each example is preprocessed once", I.line); gs(E, st, PREP, p + 1)
    E.store(st, Ptr(E.points, Off(32, ((40, k),))), z3.BitVec(E.name("lab"), 32), ir.I32)
def use(what, train):
    def h(E, st, a, I):
        k = at_pos(E, st, a[1], what, I.line); E.oblige(st, gl(E, st, PREP) == k + 1, "order", "the example was preprocessed before", I.line)
        y = z3.BitVec(E.name("y"), 32); lab = E.load(st, Ptr(E.points, Off(32, ((40, k),))), ir.I32)
        gs(E, st, SEEN, gl(E, st, SEEN) + 1); gs(E, st, MISM, gl(E, st, MISM) + z3.If(y != lab, bv(1), bv(0))); gs(E, st, POS, k + 1)
        if train:
            o = lambda n: Ptr(E.m, Off(off(E, "OnlineModel_" + n)))
            E.store(st, o("data"), simp(E.load(st, o("data"), ir.I64) + 1), ir.I64); st.assume(z3.ULT(E.load(st, o("data"), ir.I64), bv(1 << 62))); E.store(st, o("t"), z3.BitVec(E.name("t"), 32), ir.I32); E.store(st, o("upd"), z3.BitVec(E.name("u"), 64), ir.I64)
        return y
    h.__doc__ = "%s counts one example (training; fewer than 2^62 in all) and does not change the example's label" % what
    return h
def h_plain(doc):
    def h(E, st, a, I): return None
    h.__doc__ = doc; return h
def h_cb(E, st, a, I):
    """the progress callback does not change the model"""
    o = lambda n, t: E.load(st, Ptr(E.m, Off(off(E, "OnlineModel_" + n))), t)
    e, d = o("err", ir.I64), o("data", ir.I64); rate = F.conv("fpext", F.bin("fdiv", F.conv("uitofp", e, F32), F.conv("uitofp", d, F32)), E.sort(ir.F64)) if hasattr(ir, "F64") else None
    f = [a[1] == d, a[2] == z3.SignExt(32, o("t", ir.I32)), a[3] == o("upd", ir.I64)] + ([a[4] == rate] if rate is not None else [])
    E.oblige(st, z3.And(*f), "report", "progress reports the counts and the error rate so far", I.line); gs(E, st, SHOWN, gl(E, st, SHOWN) + 1)
TEXT = {"h_next": h_next, PRE: h_pre, "h_iterate": use("Iterate", True), "h_predict": use("Predict", False), "h_begintrain": h_plain("BeginTrain does not change the counters"), "h_endtrain": h_plain("EndTrain does not change the counters"),
        "h_time": h_plain("progress times are arbitrary"), "h_step": h_plain("progress times are arbitrary"), "h_cb": h_cb}
class Loops(Contract):
    opts = {"no_merge": True, "timeout": 15000, "cand_timeout": 5000, "null_phi": lambda E: Ptr(E.mb)}
    def setup(self, E, st, case):
        self.case = case; E.m = r = E.new_struct(st, "model", size(E, "OnlineModel")); o = lambda n: Ptr(r, Off(off(E, "OnlineModel_" + n))); self.o = o
        E.store(st, Ptr(r), VTab("_ZTV6ProbeT", 16), ir.PTR)
        it = E.new_struct(st, "iter", 512); E.store(st, Ptr(it), VTab("_ZTV9ProbeIter", 16), ir.PTR)
        E.G = E.new_struct(st, "ghost", 48)
        for k in range(0, 48, 8): E.store(st, Ptr(E.G, Off(k)), bv(0), ir.I64)
        E.mb = E.new_struct(st, "batch", size(E, "MiniBatch")); E.points = E.new_struct(st, "points", None, keys=1, stride=size(E, "DataPoint"))
        E.store(st, Ptr(E.mb, Off(off(E, "MiniBatch_p"))), Ptr(E.points), ir.PTR); E.store(st, Ptr(E.mb, Off(off(E, "MiniBatch_n"))), bv(0, 32), ir.I32)
        for n, t in (("data", ir.I64), ("err", ir.I64), ("t", ir.I32), ("upd", ir.I64), ("clf", ir.I32)): E.load(st, o(n), t)
        E.load(st, Ptr(E.points, Off(32, ((40, bv(0)),))), ir.I32)
        E.store(st, o("reinit"), bv(1 if "first" in case else 0, 8), ir.I8); E.store(st, o("mu"), bv(1 if "first" in case else 0, 8), ir.I8)
        if "reported" in case:
            s = E.new_struct(st, "display", 16); E.store(st, Ptr(s), VTab("_ZTV9ProbeShow", 16), ir.PTR); E.store(st, o("show"), Ptr(s), ir.PTR); E.store(st, o("cb"), FuncPtr("h_cb"), ir.PTR); E.store(st, o("ctx"), NULL, ir.PTR)
        else: E.store(st, o("show"), NULL, ir.PTR); E.store(st, o("cb"), NULL, ir.PTR)
        return [Ptr(r), Ptr(it)]
    def bind(self, E, st, a): return {n: E.load(st, self.o(n), t) for n, t in (("data", ir.I64), ("err", ir.I64), ("clf", ir.I32))}
    def pre(self, E, st, e): return [("number of classifiers", z3.And(e["clf"] >= 1, e["clf"] < (1 << 20)))]
    def modifies(self, E, st, e): return {E.G, E.mb, E.points} | {(E.m, self.o(n).off.c) for n in self.mods}
    def loop(self, L):
        E = L.engine; h = L.head; e = E.env; g = lambda o: gl(E, h, o); o = [z3.ULE(g(POS), g(N)), g(POS) == g(N), g(PREP) == g(POS), g(POS) == L.k, g(SEEN) - g(POS) == gl(E, L.entry, SEEN) - gl(E, L.entry, POS)]
        nb = E.load(h, Ptr(E.mb, Off(off(E, "MiniBatch_n"))), ir.I32); o += [nb >= 0, g(N) == z3.ZeroExt(32, nb)]
        o += [E.load(h, self.o("err"), ir.I64) == e["err"] + g(MISM), E.load(h, self.o("data"), ir.I64) == e["data"] + g(SEEN)]
        for v in L.phis.values():
            if isinstance(v, z3.ExprRef) and z3.is_bv(v):
                if v.size() == 64: o += [v == g(MISM), v == g(SEEN), v == g(POS), g(MISM) + v == g(SEEN), v == bv((1 << 64) - 1)]
                elif v.size() == 32: o += [z3.SignExt(32, v) == g(POS), v >= 0]
        for v, x in L.entry.env.items():       # counters carried by an enclosing loop
            if isinstance(x, z3.ExprRef) and z3.is_bv(x) and x.size() == 64 and x.num_args() == 0 and not z3.is_bv_value(x): o += [x == g(MISM), x == g(SEEN), x == bv((1 << 64) - 1)]
        return o
fconv = lambda x, s: F.conv("uitofp", x, s)
class Train(Loops):
    title = "OnlineModel::Train: every example once, and the reported rate is mistakes over examples"; cases = ("first training", "continued training", "progress reported")
    mods = ("data", "err", "t", "upd", "mu")
    def target(self, mod): return "v_train"
    def post(self, E, old, st, e, ret):
        d, r = E.load(st, self.o("data"), ir.I64), E.load(st, self.o("err"), ir.I64)
        return [("examples are counted", d == e["data"] + gl(E, st, SEEN)), ("mistakes are counted", r == e["err"] + gl(E, st, MISM)), ("the rate is mistakes over examples", ret == F.bin("fdiv", fconv(r, F32), fconv(d, F32))),
                ("every example of the last batch was used", gl(E, st, POS) == gl(E, st, N)), ("the model is marked as trained", E.load(st, self.o("mu"), ir.I8) == 1)]
class Test(Loops):
    title = "Model::Test: every example once, and the rate is mistakes over examples"; cases = ("first test after training", "repeated test")
    mods = ()
    def target(self, mod): return "v_test"
    def post(self, E, old, st, e, ret):
        D = E.sort(ir.F64) if hasattr(ir, "F64") else None
        return [("the rate is mistakes over examples", ret == F.conv("fptrunc", F.bin("fdiv", fconv(gl(E, st, MISM), D), fconv(gl(E, st, SEEN), D)), F32)), ("every example of the last batch was used", gl(E, st, POS) == gl(E, st, N))]
def contracts_c21(): return [Train(), Test()]

# ---- preprocessing
from specs.ops import Sparse, row, add, mul, div, c_, sq, sqrt, abs_, gt
class PreProcess(Contract):
    title = "Model::PreProcess: label, selected features, norm, and nothing else"
    opts = {"timeout": 20000, "cand_timeout": 8000, "no_merge": True}
    cases = tuple("%s, %s" % (n, l) for n in ("no normalisation", "norm L1", "norm L2") for l in ("no feature list", "feature list", "no features"))
    def target(self, mod): return "v_pre"
    def setup(self, E, st, case):
        self.case = case; r = E.new_struct(st, "model", size(E, "OnlineModel")); o = lambda n: Ptr(r, Off(off(E, "OnlineModel_" + n))); self.o = o; self.r = r
        E.store(st, o("norm"), bv({"no": 0, "L1": 1, "L2": 2}[case.split(",")[0].split()[-1] if "norm " in case else "no"], 32), ir.I32)
        self.list = "feature list" in case and "no feature list" not in case
        if self.list:
            self.fl = row(E, st, mk_vec(E, st, "flags", ir.I8, "buf", r=r, off=off(E, "OnlineModel_flags")))
        else: E.store(st, o("maxi"), bv(0, 32), ir.I32)
        n = case.endswith("no features"); self.x = mk_svec(E, st, "x", "null" if n else "buf", r=E.new_struct(st, "dp", 40))
        if not n:
            for k in (8, 16): row(E, st, E.load(st, self.x.at(k), ir.PTR))
        return [Ptr(r), self.x]
    def bind(self, E, st, a):
        e = {"x": Sparse(E, st, self.x), "lab": E.load(st, self.x.at(32), ir.I32), "clf": E.load(st, self.o("clf"), ir.I32), "maxi": E.load(st, self.o("maxi"), ir.I32)}
        if self.list: e["fl"] = Vec(E, st, self.fl, ir.I8)
        x = e["x"]
        if x.I is not None:
            def v(p):
                w = x.val(p)
                return z3.If(z3.Or(z3.UGT(z3.Select(x.I, p), e["maxi"]), e["fl"].at(x.idx(p)) == 0), c_(0.0), w) if self.list else w
            e["v"] = v; D = z3.Function("norm", BV64, F32); e["D"] = D; E.defs.append(D(0) == c_(0.0))
            e["unf"] = lambda k: [D(k + 1) == add(D(k), abs_(v(k)) if "L1" in self.case else sq(v(k)))]
        return e
    def pre(self, E, st, e):
        f = e["x"].wf() + [("number of classifiers", e["clf"] >= 1)]
        if self.list: f += e["fl"].wf() + [("a flag for every index up to the largest", z3.And(z3.ULE(1, e["maxi"]), e["fl"].size == z3.ZeroExt(32, e["maxi"]) + 1))]
        return f
    def modifies(self, E, st, e): return {(self.x.r, 32)} | ({e["x"].s.val.dr} if e["x"].I is not None else set())
    def loop(self, L):
        E = L.engine; e = E.env; o = []
        if "D" in e:
            L.head.pc = L.head.pc + e["unf"](L.k)
            o += [s == e["D"](L.k) for s, _ in L.accs if s.sort() == F32]
        return o
    def post(self, E, old, st, e, ret):
        x = e["x"]; f = [("label", E.load(st, self.x.at(32), ir.I32) == z3.If(e["clf"] == 1, z3.If(e["lab"] == 1, bv(1, 32), bv(-1, 32)), e["lab"]))]
        if x.I is None: return f
        A = st.mem[x.s.val.dr].a; n = e["D"](x.n); v = e["v"]
        def w(p):
            if self.case.startswith("no norm"): return v(p)
            return z3.If(gt(n, c_(0.0)), div(v(p), n if "L1" in self.case else sqrt(n)), v(p))
        return f + [("values: zero if not selected, divided by the norm if it is positive", fa(1, lambda p: z3.Select(A, p) == z3.If(z3.ULT(p, x.n), w(p), x.val(p))))]
def contracts_c16(): return [PreProcess()]
