"""The top-K heap: positions and members agree, the heap order holds, and the top is the worst member.
Values are compared through a rank (numbers that are not NaN are totally preordered; proved in the floating-point theory)."""
import z3
from irv import llvmir as ir
from irv.engine import *
from irv.contract import Contract
from irv.views import *
from specs.model import off, size, F32
from specs.ops import row
TR = z3.Function("at_pos", BV64, z3.BoolSort())        # trigger only: true everywhere
RK = {}
class FloatRank(FloatUF):
    @classmethod
    def comm_axioms(c):
        s = c.sort(4); rk = c.fn("rank", s, z3.IntSort()); a, b = z3.Consts("ra rb", s); lt, le = c.cmp("olt", a, b), c.cmp("ole", a, b)
        return list(FloatUF.comm_axioms()) + [z3.ForAll([a, b], lt == (rk(a) < rk(b)), patterns=[lt]), z3.ForAll([a, b], le == (rk(a) <= rk(b)), patterns=[le])] + [z3.ForAll([z3.BitVec('pq', 64)], par_ax(par, z3.BitVec('pq', 64)), patterns=[par(z3.BitVec('pq', 64))])]
rk = lambda v: FloatRank.fn("rank", FloatRank.sort(4), z3.IntSort())(v)
par_ = lambda q: z3.LShR(q - 1, bv(1))
par = z3.Function("parent", BV64, BV64)                # the parent's position; its only axiom is proved as a lemma
def par_ax(f, q): return z3.Implies(z3.And(z3.ULE(1, q), z3.ULT(q, bv(1 << 32))), z3.And(z3.ULT(f(q), q), z3.Or(q == 2 * f(q) + 1, q == 2 * f(q) + 2)))
X = lambda e: z3.ZeroExt(32, e)
LIMK = 1 << 30
class RankLemma(Contract):
    title = "numbers that are not NaN have a rank"
    def target(self, mod): return None
    def direct(self):
        import time
        t = time.time(); a, b = z3.FPs("a b", z3.Float32()); s = z3.Solver(); s.set("timeout", 60000)
        def key(x): u = z3.fpToIEEEBV(x); m = u & 0x7fffffff; return z3.If(u == m, m, -m)
        s.add(z3.Not(z3.fpIsNaN(a)), z3.Not(z3.fpIsNaN(b)), z3.Or(z3.fpLT(a, b) != (key(a) < key(b)), z3.fpLEQ(a, b) != (key(a) <= key(b)))); r = repr(s.check()); out = [("the order of numbers is the order of their ranks", {"unsat": "proved", "sat": "refuted"}.get(r, "unknown"), "z3-py", time.time() - t)]
        t = time.time(); s = z3.Solver(); q = z3.BitVec("q", 64); s.add(z3.Not(par_ax(par_, q))); r = repr(s.check()); out.append(("a parent comes before its two children", {"unsat": "proved", "sat": "refuted"}.get(r, "unknown"), "z3-py", time.time() - t))
        for sg in (1, -1):     # the induction step behind "the top is the worst member"
            t = time.time(); s = z3.Solver(); V = z3.Array("V", BV64, z3.IntSort()); p = z3.BitVec("p", 64); le = (lambda x, y: x <= y) if sg == 1 else (lambda x, y: x >= y)
            s.add(p != 0, le(V[par_(p)], V[p]), le(V[bv(0)], V[par_(p)]), z3.Not(z3.And(z3.ULT(par_(p), p), le(V[bv(0)], V[p])))); r = repr(s.check())
            out.append(("%s: a member is no worse than the top if its parent is, and parents come first" % ("min heap" if sg == 1 else "max heap"), {"unsat": "proved", "sat": "refuted"}.get(r, "unknown"), "z3-py", time.time() - t))
        return out
class Hp(Contract):
    floats = FloatRank; opts = {"no_merge": True, "timeout": 60000, "cand_timeout": 25000, "budget": 400}
    def __init__(self, mx): self.mx = mx; self.n = "max" if mx else "min"
    def less(self, a, b): return a > b if self.mx else a < b
    def target(self, mod): return self.sym + self.n
    def setup(self, E, st, case):
        r = E.new_struct(st, "heap", size(E, "Heap")); o = lambda n: Ptr(r, Off(off(E, "Heap_" + n)))
        for k in ("id2pos", "pos2id"): row(E, st, mk_vec(E, st, k, ir.I32, "buf", r=r, off=off(E, "Heap_" + k)))
        n = z3.BitVec("vals", 64); va = E.new_array(st, "values", ir.F32, n); E.store(st, o("v"), Ptr(va), ir.PTR)
        for k in "NK": E.load(st, o(k), ir.I32)
        return [Ptr(r)] + self.args(E)
    def bind(self, E, st, a):
        r = a[0].r; o = lambda n: Ptr(r, Off(a[0].off.c + off(E, "Heap_" + n)))
        v = E.load(st, o("v"), ir.PTR)
        if not (isinstance(v, Ptr) and v.r is not None and v.off.conc() and v.off.c == 0): raise ShapeMismatch("values")
        e = {"Q": Vec(E, st, o("id2pos"), ir.I32), "P": Vec(E, st, o("pos2id"), ir.I32), "v": v.r, "V": st.mem[v.r].a, "N": E.load(st, o("N"), ir.I32), "K": E.load(st, o("K"), ir.I32), "vn": st.mem[v.r].n, "st": st, "a": a}
        return e
    def A(self, st, e, k): return st.mem[e[k].dr].a
    def r_(self, e, i): return rk(z3.Select(e["V"], X(i)))
    def shape(self, e): return e["P"].wf() + e["Q"].wf() + [("sizes", z3.And(z3.ULE(1, e["K"]), z3.ULT(e["K"], LIMK), z3.ULE(e["K"], e["N"]), e["P"].size == X(e["K"]), e["Q"].size == X(e["N"]), z3.ULE(X(e["N"]), e["vn"])))]
    def cons(self, e, P, Q, hole=None, tgt=None):
        """members and positions agree; hole: position hole is free, tgt is the id to be put there"""
        q = z3.BitVec("cq", 64); i = z3.BitVec("ci", 64); K, N = X(e["K"]), X(e["N"])
        p = z3.Select(P, q); f = z3.And(z3.ULT(X(p), N), z3.Select(Q, X(p)) == z3.Extract(31, 0, q)) if hole is None else z3.Implies(q != hole, z3.And(z3.ULT(X(p), N), z3.Select(Q, X(p)) == z3.Extract(31, 0, q), p != tgt))
        z = z3.Select(Q, i); g = z3.Select(P, X(z)) == z3.Extract(31, 0, i)
        if hole is not None: g = z3.Implies(i != X(tgt), z3.And(g, X(z) != hole))
        return [z3.ForAll([q], z3.Implies(z3.ULT(q, K), f), patterns=[p]), z3.ForAll([i], z3.Implies(z3.And(z3.ULT(i, N), z3.ULT(X(z), K)), g), patterns=[z])]
    def order(self, e, P, s, m, hole=None):
        q = z3.BitVec("hq", 64); c = z3.And(TR(q), z3.ULE(1, q), z3.ULE(q, m), z3.UGE(par(q), s))
        if hole is not None: c = z3.And(c, q != hole, par(q) != hole)
        return z3.ForAll([q], z3.Implies(c, z3.Not(self.less(self.r_(e, z3.Select(P, q)), self.r_(e, z3.Select(P, par(q)))))), patterns=[TR(q)])
    def members(self, e, Q, Q0, tgt=None):
        i = z3.BitVec("mi", 64); K = X(e["K"]); a, b = z3.Select(Q, i), z3.Select(Q0, i); f = z3.And(z3.ULT(X(a), K) == z3.ULT(X(b), K), z3.Implies(z3.UGE(X(b), K), a == b))
        return z3.ForAll([i], z3.Implies(z3.And(z3.ULT(i, X(e["N"])), *([i != X(tgt)] if tgt is not None else [])), f), patterns=[a])
    def modifies(self, E, st, e): return {e["P"].dr, e["Q"].dr}
    def havoc(self, E, st, e, rt):
        for k in ("P", "Q"): r = e[k].dr; st.mem[r] = ArrC(E.fresh_array(r.name, r.elem), st.mem[r].n); E.note_write(r, "a")
        return None
class Adjust(Hp):
    sym = "adj_"; assumed = True
    def __init__(self, mx): Hp.__init__(self, mx); self.title = "%sHeap::AdjustHeap: sinks the element to its place" % ("Max" if mx else "Min")
    def target(self, mod): return "_ZN3sol4HeapINS_4math4expr2op%sEE10AdjustHeapEjj" % ("6larger" if self.mx else "7smaller")
    def args(self, E): return [z3.BitVec("s", 32), z3.BitVec("m", 32)]
    def bind(self, E, st, a): e = Hp.bind(self, E, st, a); e["s"], e["m"] = a[1], a[2]; e["P0"], e["Q0"] = self.A(st, e, "P"), self.A(st, e, "Q"); return e
    def pre(self, E, st, e):
        s, m = e["s"], e["m"]; c = self.cons(e, e["P0"], e["Q0"])
        return self.shape(e) + [("a position of the heap", z3.And(z3.ULE(s, m), z3.ULT(m, e["K"]))), ("positions know their members", c[0]), ("members know their positions", c[1]), ("heap order below", self.order(e, e["P0"], X(s) + 1, X(m)))]
    def loop(self, L):
        E = L.engine; e = E.env; h = L.head; P, Q = self.A(h, e, "P"), self.A(h, e, "Q"); tgt = z3.Select(e["P0"], X(e["s"])); o = []; q = z3.BitVec("lq", 64); lt = self.less
        for v in L.phis.values():
            if not (isinstance(v, z3.ExprRef) and z3.is_bv(v) and v.size() == 32): continue
            for hp, g in ((v, TRUE),):
                H = X(hp); L.head.pc = L.head.pc + [TR(H), TR(2 * H + 1), TR(2 * H + 2)] if hp is v else L.head.pc
                o += [z3.And(g, z3.ULE(e["s"], hp), z3.ULE(hp, e["m"]))] + [z3.And(g, c) for c in self.cons(e, P, Q, H, tgt)] + [z3.And(g, self.order(e, P, X(e["s"]), X(e["m"]), H))]
                o += [z3.ForAll([q], z3.Implies(z3.And(TR(q), z3.ULE(1, q), z3.ULE(q, X(e["m"])), par(q) == H, z3.ULE(1, H), z3.UGE(par(H), X(e["s"]))), z3.Not(lt(self.r_(e, z3.Select(P, q)), self.r_(e, z3.Select(P, par(H)))))), patterns=[TR(q)]),
                      z3.Or(hp == e["s"], z3.And(z3.ULE(1, H), z3.UGE(par(H), X(e["s"])), lt(self.r_(e, z3.Select(P, par(H))), self.r_(e, tgt))))]
                o.append(z3.And(g, z3.Extract(31, 0, 2 * H + 1) == 2 * hp + 1))
        o += [self.members(e, Q, e["Q0"], tgt)]
        return o
    def post(self, E, old, st, e, ret):
        P, Q = self.A(st, e, "P"), self.A(st, e, "Q"); c = self.cons(e, P, Q)
        return [("positions know their members", c[0]), ("members know their positions", c[1]), ("heap order", self.order(e, P, X(e["s"]), X(e["m"]))), ("the same members", self.members(e, Q, e["Q0"]))]
class Build(Hp):
    sym = "build_"
    def __init__(self, mx): Hp.__init__(self, mx); self.title = "%sHeap::BuildHeap: orders the members" % ("Max" if mx else "Min")
    def args(self, E): return []
    def bind(self, E, st, a): e = Hp.bind(self, E, st, a); e["P0"], e["Q0"] = self.A(st, e, "P"), self.A(st, e, "Q"); return e
    def pre(self, E, st, e): c = self.cons(e, e["P0"], e["Q0"]); return self.shape(e) + [("positions know their members", c[0]), ("members know their positions", c[1])]
    def loop(self, L):
        E = L.engine; e = E.env; h = L.head; P, Q = self.A(h, e, "P"), self.A(h, e, "Q"); o = self.cons(e, P, Q) + [self.members(e, Q, e["Q0"])]
        for v in L.phis.values():
            if isinstance(v, z3.ExprRef) and z3.is_bv(v) and v.size() == 32: o += [z3.ULE(v, z3.UDiv(e["K"] - 1, bv(2, 32)) + 1), z3.ULE(v, z3.LShR(e["K"] - 1, 1) + 1), z3.ULE(1, v), self.order(e, P, X(v), X(e["K"]) - 1), self.order(e, P, X(v) + 1, X(e["K"]) - 1)]
        return o
    def post(self, E, old, st, e, ret):
        P, Q = self.A(st, e, "P"), self.A(st, e, "Q"); c = self.cons(e, P, Q)
        return [("positions know their members", c[0]), ("members know their positions", c[1]), ("heap order", self.order(e, P, bv(0), X(e["K"]) - 1)), ("the same members", self.members(e, Q, e["Q0"]))]
class Update(Hp):
    sym = "upd_"
    def __init__(self, mx): Hp.__init__(self, mx); self.title = "%sHeap::UpdateHeap: takes the feature in if it is better than the worst member" % ("Max" if mx else "Min")
    def args(self, E): return [z3.BitVec("idx", 32)]
    def bind(self, E, st, a): e = Hp.bind(self, E, st, a); e["i"] = a[1]; e["P0"], e["Q0"] = self.A(st, e, "P"), self.A(st, e, "Q"); return e
    def worst(self, e, P): q = z3.BitVec("wq", 64); return z3.ForAll([q], z3.Implies(z3.ULT(q, X(e["K"])), z3.Not(self.less(self.r_(e, z3.Select(P, q)), self.r_(e, z3.Select(P, bv(0)))))), patterns=[z3.Select(P, q)])
    def top(self, e, P, Q, but=None):
        i = z3.BitVec("ti", 64); z = z3.Select(Q, i)
        return z3.ForAll([i], z3.Implies(z3.And(z3.ULT(i, X(e["N"])), z3.UGE(X(z), X(e["K"])), *([i != X(but)] if but is not None else [])), z3.Not(self.less(self.r_(e, z3.Select(P, bv(0))), rk(z3.Select(e["V"], i))))), patterns=[z])
    def pre(self, E, st, e):
        c = self.cons(e, e["P0"], e["Q0"]); P, Q = e["P0"], e["Q0"]
        return self.shape(e) + [("a feature", z3.ULT(e["i"], e["N"])), ("positions know their members", c[0]), ("members know their positions", c[1]), ("heap order", self.order(e, P, bv(0), X(e["K"]) - 1)), ("the top is the worst member", self.worst(e, P)), ("no other feature outside is better", self.top(e, P, Q, e["i"]))]
    def post(self, E, old, st, e, ret):
        P, Q = self.A(st, e, "P"), self.A(st, e, "Q"); c = self.cons(e, P, Q); K = e["K"]; i = e["i"]; at = lambda A, j: z3.Select(A, X(j)); inside = z3.ULT(at(e["Q0"], i), K); j = z3.BitVec("oj", 64); inv = bv(-1, 32)
        return [("positions know their members", c[0]), ("members know their positions", c[1]), ("heap order", self.order(e, P, bv(0), X(K) - 1)), ("no feature outside is better than the worst member", z3.Implies(z3.Not(inside), self.top(e, P, Q))),
                ("a member stays", z3.Implies(inside, z3.And(ret == inv, z3.ULT(at(Q, i), K)))), ("returns the feature left outside", z3.Implies(z3.Not(inside), z3.And(z3.ULT(ret, e["N"]), z3.UGE(at(Q, ret), K), z3.Or(ret == i, z3.And(ret == z3.Select(e["P0"], bv(0)), z3.ULT(at(Q, i), K)))))),
                ("only these two change places", z3.ForAll([j], z3.Implies(z3.And(z3.ULT(j, X(e["N"])), j != X(i), j != X(ret)), z3.ULT(z3.Select(Q, j), K) == z3.ULT(z3.Select(e["Q0"], j), K)), patterns=[z3.Select(Q, j)]))]
class Asks(Hp):
    sym = "top_"
    def __init__(self, mx): Hp.__init__(self, mx); self.title = "%sHeap::isTopK: exactly the members" % ("Max" if mx else "Min")
    def args(self, E): return [z3.BitVec("idx", 32)]
    def bind(self, E, st, a): e = Hp.bind(self, E, st, a); e["i"] = a[1]; return e
    def pre(self, E, st, e): c = self.cons(e, self.A(st, e, "P"), self.A(st, e, "Q")); return self.shape(e) + [("a feature", z3.ULT(e["i"], e["N"])), ("positions know their members", c[0]), ("members know their positions", c[1])]
    def modifies(self, E, st, e): return set()
    def post(self, E, old, st, e, ret):
        q = z3.BitVec("aq", 64); P = self.A(st, e, "P"); f = z3.Exists([q], z3.And(z3.ULT(q, X(e["K"])), z3.Select(P, q) == e["i"]))
        p = X(z3.Select(self.A(st, e, "Q"), X(e["i"]))); return [("yes only for members", z3.Implies(ret, z3.And(z3.ULT(p, X(e["K"])), z3.Select(P, p) == e["i"]))), ("yes for every member", z3.ForAll([q], z3.Implies(z3.And(z3.ULT(q, X(e["K"])), z3.Select(P, q) == e["i"]), ret), patterns=[z3.Select(P, q)]))]
def contracts(): return [RankLemma()] + [c(m) for m in (False, True) for c in (Adjust, Build, Update, Asks)]
