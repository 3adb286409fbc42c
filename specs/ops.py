"""C04: element-wise operations, dot products and norms."""
import z3
from irv import llvmir as ir
from irv.engine import *
from irv.contract import Contract
from irv.views import *

F = FloatUF; F32 = F.sort(4)
add = lambda a, b: F.bin("fadd", a, b); sub = lambda a, b: F.bin("fsub", a, b); mul = lambda a, b: F.bin("fmul", a, b); div = lambda a, b: F.bin("fdiv", a, b)
neg = lambda a: F.un("fneg", a); c_ = lambda x: F.const(x, 4)
gt = lambda a, b: F.cmp("ogt", a, b)
def trunc(a, b): return z3.If(F.cmp("oge", a, c_(0.0)), z3.If(gt(a, b), sub(a, b), c_(0.0)), z3.If(gt(neg(a), b), add(a, b), c_(0.0)))
def abs_(a): return z3.If(gt(a, c_(0.0)), a, neg(a))
sq = lambda a: mul(a, a); sqrt = lambda a: F.un("sqrt", a)
# name: value of an addressed entry from (old w, u, h, x, a, b)
DENSE = {"d_add_s": lambda w, u, h, x, a, b: add(w, a), "d_sub_s": lambda w, u, h, x, a, b: sub(w, a), "d_mul_s": lambda w, u, h, x, a, b: mul(w, a), "d_div_s": lambda w, u, h, x, a, b: div(w, a), "d_set_s": lambda w, u, h, x, a, b: a,
  "d_add": lambda w, u, h, x, a, b: add(w, u), "d_sub": lambda w, u, h, x, a, b: sub(w, u), "d_mul": lambda w, u, h, x, a, b: mul(w, u), "d_div": lambda w, u, h, x, a, b: div(w, u), "d_set": lambda w, u, h, x, a, b: u,
  "d_abs": lambda w, u, h, x, a, b: add(w, abs_(u)), "d_trunc": lambda w, u, h, x, a, b: trunc(w, mul(a, sub(b, u))), "d_trunc_h": lambda w, u, h, x, a, b: trunc(w, div(mul(a, sub(b, u)), h)),
  "d_rda": lambda w, u, h, x, a, b: mul(neg(a), u), "d_rda_h": lambda w, u, h, x, a, b: div(mul(neg(a), u), h), "d_rdal1": lambda w, u, h, x, a, b: mul(neg(a), trunc(u, b)), "d_rdal1_h": lambda w, u, h, x, a, b: div(mul(neg(a), trunc(u, b)), h),
  "d_sop": lambda w, u, h, x, a, b: div(u, add(a, h))}
SPARSE = {"s_add": lambda w, u, h, x, a, b: add(w, x), "s_axpy1": lambda w, u, h, x, a, b: sub(w, mul(a, x)), "s_axpy": lambda w, u, h, x, a, b: sub(w, mul(mul(a, b), x)), "s_ada": lambda w, u, h, x, a, b: sub(w, div(mul(mul(a, b), x), h)),
  "s_cw": lambda w, u, h, x, a, b: sub(w, mul(mul(mul(a, b), u), x)), "s_sig": lambda w, u, h, x, a, b: div(w, add(c_(1.0), mul(mul(a, w), sq(x)))), "s_sig2": lambda w, u, h, x, a, b: div(w, add(c_(1.0), mul(mul(w, sq(x)), a))),
  "s_h": lambda w, u, h, x, a, b: add(sqrt(add(sq(sub(w, a)), sq(mul(b, x)))), a), "s_trunc": lambda w, u, h, x, a, b: trunc(w, mul(a, sub(b, u))), "s_trunc_h": lambda w, u, h, x, a, b: trunc(w, div(mul(a, sub(b, u)), h)),
  "s_rda": lambda w, u, h, x, a, b: mul(neg(a), u), "s_rda_h": lambda w, u, h, x, a, b: div(mul(neg(a), u), h), "s_rdal1": lambda w, u, h, x, a, b: mul(neg(a), trunc(u, b)), "s_rdal1_h": lambda w, u, h, x, a, b: div(mul(neg(a), trunc(u, b)), h),
  "s_sop": lambda w, u, h, x, a, b: div(u, add(add(a, h), sq(x))), "s_sq": lambda w, u, h, x, a, b: add(w, sq(x)), "s_abs": lambda w, u, h, x, a, b: abs_(u), "s_abs2": lambda w, u, h, x, a, b: add(w, abs_(u))}
XOPS = {"x_add": lambda x, a: add(x, a), "x_sub": lambda x, a: sub(x, a), "x_mul": lambda x, a: mul(x, a), "x_div": lambda x, a: div(x, a)}
# name: (term of entry k, over: w (dense) or x (sparse entries), bounded by w's size)
FOLD = {"dot": (lambda w, u, x: mul(w, x), "x", True), "dot_d": (lambda w, u, x: mul(w, u), "w", False), "dot_sq": (lambda w, u, x: mul(w, sq(x)), "x", True),
  "norm1": (lambda w, u, x: abs_(w), "w", False), "norm2": (lambda w, u, x: sq(w), "w", False), "xnorm1": (lambda w, u, x: abs_(x), "x", False), "xnorm2": (lambda w, u, x: sq(x), "x", False)}

def row(E, st, p):
    """a vector that has been sized: one row"""
    h = E.load(st, p.at(16), ir.PTR); E.store(st, h.at(0), bv(1), ir.I64); return p
class Sparse:
    """an example: entries with strictly increasing indexes; pos is the ghost inverse of the index list"""
    def __init__(self, E, st, p, name="x"):
        self.s = SVec(E, st, p); self.n = self.s.size; self.pos = z3.Function("pos_" + name, BV64, BV64); self.E = E
        self.I = self.s.idx.arr if self.s.init and self.s.idx.dr is not None else None
        self.X = self.s.val.arr if self.I is not None else None
        if self.I is not None:
            I = self.I
            def m(e):
                if e.decl().kind() == z3.Z3_OP_CONCAT and e.num_args() == 2 and z3.is_bv_value(e.arg(0)) and e.arg(0).as_long() == 0: e = e.arg(1)
                elif e.decl().kind() == z3.Z3_OP_ZERO_EXT: e = e.arg(0)
                if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SELECT and e.arg(0).eq(I): return e.arg(1)
                return None
            E.inverses.append((m, lambda j: self.pos(j)))
    def idx(self, p): return z3.ZeroExt(32, z3.Select(self.I, p))
    def val(self, p): return z3.Select(self.X, p)
    def has(self, j): return z3.And(z3.ULT(self.pos(j), self.n), self.idx(self.pos(j)) == j)
    def wf(self):
        f = self.s.wf()
        if self.I is not None:
            p, q = z3.BitVec("px", 64), z3.BitVec("qx", 64)
            f += [("indexes are strictly increasing", z3.ForAll([p, q], z3.Implies(z3.And(z3.ULT(p, q), z3.ULT(q, self.n)), z3.ULT(z3.Select(self.I, p), z3.Select(self.I, q))), patterns=[z3.MultiPattern(z3.Select(self.I, p), z3.Select(self.I, q))])),
                  ("ghost inverse", z3.ForAll([p], z3.Implies(z3.ULT(p, self.n), self.pos(self.idx(p)) == p), patterns=[z3.Select(self.I, p)]))]
        return f
    def trim_cands(self, L, size):
        """for a loop that walks down from the end: everything from s on is out of range"""
        out = []; p = z3.BitVec("pt", 64)
        if self.I is None: return out
        for v in list(L.phis.values()):
            if isinstance(v, z3.ExprRef) and z3.is_bv(v) and v.size() == 64:
                out += [z3.ULE(v, self.n), z3.ForAll([p], z3.Implies(z3.And(z3.ULE(v, p), z3.ULT(p, self.n)), z3.UGE(self.idx(p), size)), patterns=[z3.Select(self.I, p)])]
        return out
class Kernel(Contract):
    floats = FloatUF
    opts = {"timeout": 12000, "cand_timeout": 8000}
    def __init__(self, name):
        self.k = name; self.title = "vector kernel %s" % name
        if name[0] in "sx" or name in ("dot", "dot_sq"): self.cases = ("example", "example without features")
        elif name in ("d_add", "d_mul", "dot_d"): self.cases = ("same size", "other size")
    def target(self, mod): return ("f_" if self.k in FOLD else "k_") + self.k
    def setup(self, E, st, case):
        a = [row(E, st, mk_vec(E, st, n, ir.F32, "buf")) for n in ("w", "u", "h")]
        for q in a:
            d = dict(st.mem[q.r]); d[0] = vptr(VT["f"]); st.mem[q.r] = d
        x = mk_svec(E, st, "x", "null" if case == "example without features" else "buf")
        if case != "example without features":
            for o in (8, 16): row(E, st, E.load(st, x.at(o), ir.PTR))
        self.case = case
        return a + [x, z3.Const("a", F32), z3.Const("b", F32)]
    def bind(self, E, st, A):
        e = {n: Vec(E, st, p, ir.F32) for n, p in zip("wuh", A)}
        e["x"] = Sparse(E, st, A[3]); e["a"], e["b"] = A[4], A[5]
        return e
    def pre(self, E, st, e):
        f = []; w = e["w"]
        for n in "wuh": f += e[n].wf()
        f += e["x"].wf()
        for n in "uh":
            if not (n == "u" and self.case == "other size"): f.append(("same shape", e[n].size == w.size))
            else: f.append(("another shape", z3.And(e[n].size != w.size, e[n].size != 0)))
        if self.k in FOLD: self.fold(E, e)
        if self.k in FOLD and FOLD[self.k][2]:
            x = e["x"]; N = z3.BitVec("N", 64); e["N"] = N; p = z3.BitVec("pn", 64); f.append(("N counts the features within the dimension", z3.ULE(N, x.n)))
            if x.I is not None: f.append(("N", z3.ForAll([p], z3.Implies(z3.ULT(p, x.n), z3.ULT(p, N) == z3.ULT(x.idx(p), w.size)), patterns=[z3.Select(x.I, p)])))
        return f
    def throws(self, E, st, e): return TRUE if self.case == "other size" else None
    may_not_return = property(lambda s: s.case == "other size")
    def fold(self, E, e):
        fn, over, _ = FOLD[self.k]; x = e["x"]; w = e["w"]; u = e["u"]
        E.D = z3.Function("sum_to", BV64, F32)
        E.defs.append(E.D(0) == c_(0.0))
        def term(k):
            if over == "w": return fn(w.at(k), u.at(k), None)
            if x.I is None: return None
            return fn(w.at(x.idx(k)), None, x.val(k))
        E.unf = lambda k: [E.D(k + 1) == add(E.D(k), term(k))] if term(k) is not None else []
    def modifies(self, E, st, e):
        if self.k in FOLD: return set()
        if self.k in XOPS: return {e["x"].s.val.dr} if e["x"].I is not None else set()
        return {e["w"].dr}
    def post(self, E, old, st, e, ret):
        w, u, h, x, a, b = (e[n] for n in "wuhxab")
        if self.k in FOLD:
            _, over, bounded = FOLD[self.k]
            n = e["N"] if bounded else (w.size if over == "w" else x.n)
            if x.I is None and over == "x": return [("sum over nothing is zero", ret == c_(0.0))]
            return [("the sum over exactly the addressed entries, in order", ret == E.D(n))]
        if self.k in XOPS:
            if x.I is None: return [("nothing to do", TRUE)]
            f = XOPS[self.k]; X1 = st.mem[x.s.val.dr].a
            return [("every entry of the example is computed, nothing else", fa(1, lambda j: z3.Select(X1, j) == z3.If(z3.ULT(j, x.n), f(x.val(j), a), x.val(j)), lambda j: z3.Select(X1, j)))]
        W1 = st.mem[w.dr].a; W = w.arr
        if self.k in DENSE:
            f = DENSE[self.k]
            return [("every entry is the stated function of the operands", fa(1, lambda j: z3.Implies(z3.ULT(j, w.size), z3.Select(W1, j) == f(w.at(j), u.at(j), h.at(j), None, a, b)), lambda j: z3.Select(W1, j))),
                    ("nothing beyond the vector is written", fa(1, lambda j: z3.Implies(z3.UGE(j, w.size), z3.Select(W1, j) == w.at(j)), lambda j: z3.Select(W1, j)))]
        if x.I is None: return [("nothing is written", fa(1, lambda j: z3.Select(W1, j) == w.at(j), lambda j: z3.Select(W1, j)))]
        f = SPARSE[self.k]
        return [("the entries of the example's features are the stated function, all others are untouched",
                 fa(1, lambda j: z3.Select(W1, j) == z3.If(z3.And(z3.ULT(j, w.size), x.has(j)), f(w.at(j), u.at(j), h.at(j), x.val(x.pos(j)), a, b), w.at(j)), lambda j: z3.Select(W1, j)))]
    def loop(self, L):
        E = L.engine; e = E.env; k = L.k; o = e["x"].trim_cands(L, e["w"].size)
        if self.k in FOLD:
            L.head.pc = L.head.pc + E.unf(k)
            for s, _ in L.accs:
                if s.sort() == F32: o += [s == E.D(k), s == c_(0.0)]
        return o
def contracts(): return [Kernel(k) for k in list(DENSE) + list(SPARSE) + list(XOPS) + list(FOLD)]
