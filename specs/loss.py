"""C09: losses, in IEEE arithmetic."""
import z3
from irv import llvmir as ir
from irv.engine import *
from irv.contract import Contract
from irv.views import *
from irv.floats import FloatLem, FloatLemD, FloatLemT, FloatLemTD, Alg, IEEELemmas, FMAX

FL = FloatLem; A4, A8 = Alg(FL, 4), Alg(FL, 8); F32, F64 = FL.sort(4), FL.sort(8)
fv, dv = A4.c, A8.c
add, sub, mul, div = A4.add, A4.sub, A4.mul, A4.div
nn = lambda a: z3.Not(A4.nan(a)); fin = A4.fin
i2f = lambda i: FL.conv("sitofp", i, F32)
d2f = A8.trunc; f2d = A4.ext
EXPD = lambda x: FL.un("exp", x); LOGD = lambda x: FL.un("log", x)
LT, LE = A4.lt, A4.le
def libm(E):
    """what is assumed of exp and log, and what int-to-float conversion gives for the labels"""
    x = z3.Const("lx", F64)
    E.defs += [z3.ForAll([x], z3.Implies(z3.Not(A8.nan(x)), A8.le(dv(0.0), EXPD(x))), patterns=[EXPD(x)]),
               z3.ForAll([x], z3.Implies(A8.le(dv(1.0), x), A8.le(dv(0.0), LOGD(x))), patterns=[LOGD(x)]),
               i2f(z3.BitVecVal(1, 32)) == fv(1.0), i2f(z3.BitVecVal(-1, 32)) == fv(-1.0)]
    i = z3.BitVec("li", 32)
    E.defs += [z3.ForAll([i], fin(i2f(i)), patterns=[i2f(i)])]
def softplus(z): return z3.If(LT(fv(100.0), z), z, z3.If(LT(z, fv(-100.0)), fv(0.0), d2f(LOGD(A8.add(dv(1.0), EXPD(f2d(z)))))))
def x_handler(E, st, a, I):
    """a margin handler only reads its arguments and returns a number"""
    E.hm = z3.Const(E.name("handled_margin"), F32); st.assume(fin(E.hm)); E.hcalls = getattr(E, "hcalls", 0) + 1
    return E.hm

class LossC(Contract):
    opts = {"timeout": 15000, "cand_timeout": 4000, "no_merge": True, "budget": 200}
    def __init__(self, kind, mode):
        self.kind = kind; self.mode = mode; self.mc = kind[0] in "mu"; self.base = kind[1:] if self.mc else kind
        self.floats = {(0, 0): FloatLem, (0, 1): FloatLemD, (1, 0): FloatLemT, (1, 1): FloatLemTD}[int(kind[0] == 'm' and self.base != 'bool'), int(self.base == 'logistic')]
        self.weight = 3 if kind[0] == "u" else 2 if self.mc else 1
        self.title = "%s%s loss: %s()" % ({"m": "max-score ", "u": "uniform "}[kind[0]] if self.mc else "", self.base, mode)
        if kind in ("hinge", "uhinge") and mode == "gradient": self.cases = ("plain", "handler")
    def target(self, mod): return "v_%s_%s" % (self.kind, self.mode)
    def setup(self, E, st, case):
        o = E.new_struct(st, "loss", 88)
        d = dict(st.mem[o]); d[0] = (VTab("Loss"), ir.PTR)
        if self.base == "hinge":
            if case == "handler": d[72] = (FuncPtr("v_mgr"), ir.PTR); d[80] = (FuncPtr("v_margin"), ir.PTR)
            else: d[72] = (NULL, ir.PTR); d[80] = (NULL, ir.PTR)
        st.mem[o] = d
        dp = E.new_struct(st, "dp", 40)
        p = E.new_array(st, "predict", ir.F32, z3.BitVec("np", 64)); g = E.new_array(st, "gradient", ir.F32, z3.BitVec("ng", 64))
        a = [Ptr(o), Ptr(dp), Ptr(p), z3.BitVec("predict_label", 32)]
        if self.mode == "gradient": a.append(Ptr(g))
        return a + [z3.BitVec("cls_num", 32)]
    def bind(self, E, st, a):
        e = {"o": a[0], "lab": E.load(st, a[1].at(32), ir.I32), "P": st.mem[a[2].r].a, "np": st.mem[a[2].r].n, "pl": a[3], "cls": a[-1], "p": a[2], "case": None}
        if self.mode == "gradient": e["g"] = a[4].r; e["G"] = st.mem[a[4].r].a; e["ng"] = st.mem[a[4].r].n
        if self.base == "hinge": e["margin"] = E.load(st, a[0].at(48), ir.F32)
        e["l64"] = z3.SignExt(32, e["lab"]); e["n"] = z3.SignExt(32, e["cls"]); e["pl64"] = z3.SignExt(32, e["pl"])
        return e
    def pre(self, E, st, e):
        if not getattr(E, "libm_", 0): libm(E); E.libm_ = 1
        P = e["P"]; q = z3.BitVec("qp", 64)
        f = [("scores", z3.And(z3.ULE(1, e["np"]), z3.ULT(e["np"], bv(1 << 31))))]
        if "g" in e: f.append(("gradient array", z3.And(z3.ULE(1, e["ng"]), z3.ULT(e["ng"], bv(1 << 31)))))
        f.append(("scores are finite", z3.ForAll([q], z3.Implies(z3.ULT(q, e["np"]), z3.And(fin(z3.Select(P, q)), LT(fv(-FMAX), z3.Select(P, q)))), patterns=[z3.Select(P, q)])))
        if "margin" in e: f.append(("margin", fin(e["margin"])))
        if self.mc:
            f += [("classes", z3.And(e["cls"] >= 2, z3.ULE(e["n"], e["np"]))), ("label", z3.And(e["lab"] >= 0, e["lab"] < e["cls"])), ("predicted label", z3.And(e["pl"] >= 0, e["pl"] < e["cls"])),
                  ("predicted class scores highest", z3.ForAll([q], z3.Implies(z3.ULT(q, e["n"]), LE(z3.Select(P, q), z3.Select(P, e["pl64"]))), patterns=[z3.Select(P, q)]))]
            if "g" in e: f.append(("room for the gradient", z3.ULE(e["n"], e["ng"])))
            if self.kind[0] == "u": self.fold(E, e)
        elif self.base != "square": f.append(("two-class label", z3.Or(e["lab"] == 1, e["lab"] == -1)))
        return f
    def fold(self, E, e):
        """S(k), N(k): sum and number of the scores below position k that reach the true class's score"""
        E.S = z3.Function("ge_sum", BV64, F32); E.N = z3.Function("ge_num", BV64, F32); E.C = z3.Function("ge_cnt", BV64, BV64)
        k = z3.BitVec("kf", 64); P = e["P"]; x = z3.Select(P, k); c = LE(z3.Select(P, e["l64"]), x)
        E.defs += [E.S(0) == fv(0.0), E.N(0) == fv(1e-12), E.C(0) == 0]
        E.unf = lambda k: (lambda x: (lambda c: [E.S(k + 1) == z3.If(c, add(E.S(k), x), E.S(k)), E.N(k + 1) == z3.If(c, add(E.N(k), fv(1.0)), E.N(k)), E.C(k + 1) == z3.If(c, E.C(k) + 1, E.C(k))])(LE(z3.Select(P, e["l64"]), x)))(z3.Select(P, k))
    def modifies(self, E, st, e):
        m = set()
        if "g" in e: m.add(e["g"])
        if self.base == "hinge" and self.mode == "gradient": m.add((e["o"].r, 48))
        return m
    def spec(self, E, e, w):
        """the stated loss, with w the competing class of max-score losses: (value, no gradient, gradient of the competitor)"""
        P = e["P"]; at = lambda j: z3.Select(P, j); neg1 = fv(-1.0)
        if self.base == "bool":
            return z3.If(e["pl"] == e["lab"], fv(0.0), fv(1.0)), e["pl"] == e["lab"], fv(1.0)
        if self.base == "square":
            d = sub(at(bv(0)), i2f(e["lab"])); return mul(mul(d, d), fv(0.5)), FALSE, d
        if self.base == "hinge":
            m = e["margin"] if not hasattr(E, "hm") else E.hm
            if not self.mc: x = sub(m, mul(at(bv(0)), i2f(e["lab"])))
            else: x = add(sub(m, at(e["l64"])), at(w) if self.kind[0] == "m" else self.avg(E, e))
            v = z3.If(LT(fv(0.0), x), x, fv(0.0))
            return v, z3.Not(LT(fv(0.0), x)), fv(1.0)
        if not self.mc: z = mul(A4.neg(at(bv(0))), i2f(e["lab"]))
        else: z = sub(at(w) if self.kind[0] == "m" else self.avg(E, e), at(e["l64"]))
        v = softplus(z); none = LT(z, fv(-100.0)); big = LT(fv(100.0), z)
        if self.kind[0] == "u":      # no other class scores as high: nothing to lose
            alone = LE(sub(E.N(e["n"]), fv(1.0)), fv(0.0)); v = z3.If(alone, fv(0.0), v); none = z3.Or(alone, none)
        num = f2d(i2f(-e["lab"])) if not self.mc else dv(1.0)
        return v, none, z3.If(big, fv(1.0) if self.mc else i2f(-e["lab"]), d2f(A8.div(num, A8.add(dv(1.0), EXPD(f2d(A4.neg(z)))))))
    def avg(self, E, e): return div(sub(E.S(e["n"]), z3.Select(e["P"], e["l64"])), sub(E.N(e["n"]), fv(1.0)))
    def post(self, E, old, st, e, ret):
        P = e["P"]; at = lambda j: z3.Select(P, j); n, l = e["n"], e["l64"]; q = z3.BitVec("qg", 64)
        f = [("not negative", LE(fv(0.0), ret))]
        grad = self.mode == "gradient"
        if grad:
            G = st.mem[e["g"]].a; gx = lambda j: z3.Select(G, j)
            lo = n if self.mc else bv(1)
            f.append(("nothing beyond the gradient of the class scores is written", fa(1, lambda j: z3.Implies(z3.ULE(lo, j), gx(j) == z3.Select(e["G"], j)))))
            inn = lambda fn: fa(1, lambda j: z3.Implies(z3.ULT(j, n), fn(j)))
        if self.kind[0] != "m":
            v, none, a = self.spec(E, e, None)
            f.append(("the stated loss", ret == v))
            if not grad: return f
            if not self.mc:
                d = a if self.base == "square" else z3.If(none, fv(0.0), a if self.base == "logistic" else i2f(-e["lab"]))
                return f + [("gradient", gx(bv(0)) == d)]
            cnt = sub(E.N(n), fv(1.0)) if self.base != "bool" else FL.conv("uitofp", E.C(n) - 1, F32)
            return f + [("gradient is zero without loss", z3.Implies(none, inn(lambda j: gx(j) == fv(0.0)))),
                        ("gradient of the true class", z3.Implies(z3.Not(none), gx(l) == A4.neg(a))),
                        ("gradient of the other classes", z3.Implies(z3.Not(none), inn(lambda j: z3.Implies(j != l, gx(j) == z3.If(LE(at(l), at(j)), div(a, cnt), fv(0.0))))))]
        alts = []
        for w in self.witness(E, st, e, ret):
            v, none, a = self.spec(E, e, w)
            c = [z3.ULT(w, n), ret == v]
            if self.base == "bool": c.append(w == e["pl64"])
            else: c += [w != l, fa(1, lambda j: z3.Implies(z3.And(z3.ULT(j, n), j != l), LE(at(j), at(w))), lambda j: at(j))]
            if grad: c += [z3.Implies(none, inn(lambda j: gx(j) == fv(0.0))), z3.Implies(z3.Not(none), z3.And(gx(l) == A4.neg(a), gx(w) == a, inn(lambda j: z3.Implies(z3.And(j != l, j != w), gx(j) == fv(0.0)))))]
            alts.append(z3.And(*c))
        # the competitor is one of the positions the code used; every one of them is tried as the witness
        for x in alts:
            if len(alts) > 1 and E.prove(st.pc, x, timeout=8000)[0] == "proved": return f + [("the stated loss and gradient, with a best other class as competitor", x)]
        return f + [("the stated loss and gradient, with a best other class as competitor", z3.Or(*alts))]
    def witness(self, E, st, e, ret):
        w = [e["pl64"]]; seen = set()
        def add_(x):
            if z3.is_bv(x) and x.size() == 64 and not any(x.eq(y) for y in w): w.append(x)
        def walk(x):
            st_ = [x]
            while st_:
                y = st_.pop()
                if y.get_id() in seen: continue
                seen.add(y.get_id())
                if z3.is_quantifier(y): continue
                if y.decl().kind() == z3.Z3_OP_SELECT: add_(y.arg(1))
                if y.decl().kind() == z3.Z3_OP_STORE: add_(y.arg(1))
                st_ += y.children()
        walk(ret)
        for f in st.pc[-12:]: walk(f)
        if "g" in e: walk(st.mem[e["g"]].a)
        return [x for x in w if not x.eq(e["l64"]) and not z3.is_bv_value(x) and not x.decl().name().startswith("k!")][:6]
    def loop(self, L):
        E = L.engine; e = E.env; k = L.k; o = []; n, l, P = e["n"], e["l64"], e["P"]; q = z3.BitVec("ql", 64)
        if self.kind[0] == "u":
            L.head.pc = L.head.pc + E.unf(k)
            N = E.N(k); o += [nn(E.S(k)), LE(fv(0.0), N), fin(N), z3.ULE(k, n)]
            if self.base == "logistic": o += [z3.Or(N == fv(1e-12), N == fv(1.0), LE(fv(2.0), N)), z3.Or(z3.ULE(k, l), N == fv(1.0), LE(fv(2.0), N))]
            else: o += [z3.ULE(E.C(k), k), z3.Or(z3.ULE(k, l), z3.And(LE(fv(1.0), N), z3.UGE(E.C(k), 1))), z3.Or(z3.And(E.C(k) == 0, N == fv(1e-12)), LE(fv(1.0), N)), (E.C(k) == 1) == (N == fv(1.0)), LE(fv(2.0), N) == z3.UGE(E.C(k), 2)]
        for s, _ in L.accs:
            if s.sort() == F32: 
                if self.kind[0] == "u": o += [s == E.S(k), s == E.N(k), nn(s)]
            elif self.kind[0] == "u" and z3.is_bv(s) and s.size() == 64: o += [s == E.C(k)]
        if self.kind[0] == "m" and self.base != "bool":
            A = L.head.mem.get(e["p"].r)
            A = A.a if A is not None else P
            for s in self.positions(L):
                o += [z3.ULT(s, n), z3.ForAll([q], z3.Implies(z3.ULE(q, k), LE(z3.Select(A, q), z3.Select(A, s))), patterns=[z3.Select(A, q)]),
                      z3.ForAll([q], z3.Implies(z3.ULT(q, k), LE(z3.Select(A, q), z3.Select(A, s))), patterns=[z3.Select(A, q)])]
        return o
    def positions(self, L):
        out = []
        for v in L.phis.values():
            if isinstance(v, z3.ExprRef) and z3.is_bv(v) and v.size() == 64: out.append(v)
            if isinstance(v, z3.ExprRef) and z3.is_bv(v) and v.size() == 32: out.append(z3.SignExt(32, v))
            if isinstance(v, Ptr) and v.r is not None and v.off.divisible(4):
                d = v.off.div(4); out.append(d if isinstance(d, z3.ExprRef) else d.bytes())
        return out
class MaxElement(Contract):
    """std::max_element: some position of the range whose value no other exceeds"""
    title = "std::max_element on scores"; optional = True; floats = FloatLemT
    opts = {"timeout": 15000, "cand_timeout": 8000, "no_merge": True}
    def target(self, mod):
        if not hasattr(self, "_t"): self._t = mod.find(r"^float\* std::__max_element<float\*, __gnu_cxx::__ops::_Iter_less_iter>") or mod.find(r"std::__max_element<float\*")
        return self._t
    def setup(self, E, st, case):
        n = z3.BitVec("np", 64); r = E.new_array(st, "scores", ir.F32, n); m = z3.BitVec("m", 64); st.assume(z3.ULE(m, n)); st.assume(z3.ULT(n, bv(1 << 31)))
        return [Ptr(r), Ptr(r, Off(0, ((4, m),)))]
    def bind(self, E, st, a):
        p, q = a[0], a[1]
        if p.r is not q.r or not (p.off.conc() and p.off.c == 0) or not q.off.divisible(4): raise ShapeMismatch("range of max_element")
        return {"r": p.r, "A": st.mem[p.r].a, "m": simp(q.off.div(4)), "n": st.mem[p.r].n}
    def pre(self, E, st, e):
        q = z3.BitVec("qm", 64); m = simp(e["m"])
        if z3.is_bv_value(m) and 0 < m.as_long() <= 8: return [("range within the array", z3.ULE(m, e["n"]))] + [("score %d is a number" % j, fin(simp(z3.Select(e["A"], bv(j))))) for j in range(m.as_long())]
        return [("range not empty", z3.And(z3.ULE(1, e["m"]), z3.ULE(e["m"], e["n"]))), ("scores are numbers", z3.ForAll([q], z3.Implies(z3.ULT(q, e["m"]), fin(z3.Select(e["A"], q))), patterns=[z3.Select(e["A"], q)]))]
    def havoc(self, E, st, e, rt):
        i = z3.BitVec(E.name("best"), 64); return Ptr(e["r"], Off(0, ((4, i),)))
    def post(self, E, old, st, e, ret):
        if not isinstance(ret, Ptr) or ret.r is not e["r"]: return [("points into the range", FALSE)]
        i = ret.off.div(4); q = z3.BitVec("qe", 64)
        inst = z3.And(*[z3.Implies(z3.ULT(bv(j), e["m"]), LE(z3.Select(e["A"], bv(j)), z3.Select(e["A"], i))) for j in (0, 1)])    # instances a caller needs
        return [("points into the range", z3.ULT(i, e["m"])), ("the first two", inst), ("nothing in the range is larger", z3.ForAll([q], z3.Implies(z3.ULT(q, e["m"]), LE(z3.Select(e["A"], q), z3.Select(e["A"], i))), patterns=[z3.Select(e["A"], q)]))]
    def loop(self, L):
        E = L.engine; e = E.env; k = L.k; o = []; A = e["A"]; q = z3.BitVec("ql", 64); m = e["m"]
        for s in LossC.positions(None, L):
            o += [z3.ULT(s, m), z3.ULE(s, m)]
            o += [z3.ForAll([q], z3.Implies(z3.ULT(q, k + d), LE(z3.Select(A, q), z3.Select(A, s))), patterns=[z3.Select(A, q)]) for d in (0, 1)]
        return o
def contracts(): return [IEEELemmas(), MaxElement()] + [LossC(k, m) for k in ("bool", "mbool", "ubool", "hinge", "mhinge", "uhinge", "logistic", "mlogistic", "ulogistic", "square") for m in ("loss", "gradient")]
