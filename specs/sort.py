"""C03: sorting. The multiset of (index, value) pairs is represented by C(A,B) = how often an arbitrary but fixed pair
(gx, gy) occurs in positions 0..n-1; its only axioms are how one store changes a count."""
import z3
from irv import llvmir as ir
from irv.engine import *
from irv.contract import Contract, unchanged
from irv.views import *
from specs.vec import VecResize, VecPushBack

class Count:
    def __init__(self, E, n):
        AS, BS = E.arrsort(ir.I32), E.arrsort(ir.F32)
        self.C = z3.Function("C", AS, BS, z3.IntSort()); self.gx = z3.BitVec("gx", 32); self.gy = z3.Const("gy", E.sort(ir.F32))
        M = self.M = z3.Function("M", z3.BitVecSort(32), E.sort(ir.F32), z3.IntSort())
        A, B, i, u, v = z3.Const("qA", AS), z3.Const("qB", BS), z3.BitVec("qi", 64), z3.BitVec("qu", 32), z3.Const("qv", E.sort(ir.F32))
        E.defs += [z3.ForAll([A, B, i, u], z3.Implies(z3.ULT(i, n), self.C(z3.Store(A, i, u), B) == self.C(A, B) - M(z3.Select(A, i), z3.Select(B, i)) + M(u, z3.Select(B, i))), patterns=[self.C(z3.Store(A, i, u), B)]),
                   z3.ForAll([A, B, i, v], z3.Implies(z3.ULT(i, n), self.C(A, z3.Store(B, i, v)) == self.C(A, B) - M(z3.Select(A, i), z3.Select(B, i)) + M(z3.Select(A, i), v)), patterns=[self.C(A, z3.Store(B, i, v))])]
    def __call__(self, A, B): return self.C(A, B)
def cnt(E, n):
    if not hasattr(E, "cnt_"): E.cnt_ = Count(E, n)
    return E.cnt_
def rng(fn, lo, hi, A):
    q = z3.BitVec("qr", 64)
    return z3.ForAll([q], z3.Implies(z3.And(z3.ULE(lo, q), z3.ULE(q, hi)), fn(z3.Select(A, q))), patterns=[z3.Select(A, q)])
def out(lo, hi, A, A0):
    q = z3.BitVec("qo", 64)
    return z3.ForAll([q], z3.Implies(z3.Or(z3.ULT(q, lo), z3.UGT(q, hi)), z3.Select(A, q) == z3.Select(A0, q)), patterns=[z3.Select(A, q)])
TR = z3.Function("at_pos", BV64, z3.BoolSort())        # trigger only: true everywhere
def sorted_(A, lo, hi):
    """every element is at least its left neighbour"""
    q = z3.BitVec("qq", 64)
    return z3.ForAll([q], z3.Implies(z3.And(TR(q), z3.ULT(lo, q), z3.ULE(q, hi)), z3.ULE(z3.Select(A, q - 1), z3.Select(A, q))), patterns=[TR(q)])

class QSort(Contract):
    title = "QuickSort(a, b, low, high)"; optional = True; recursive = True; weight = 5
    opts = {"no_merge": True, "cand_timeout": 6000, "timeout": 20000, "budget": 250}
    def target(self, mod):
        if not hasattr(self, "_t"):
            self._t = mod.find(r"QuickSort<unsigned int, float>")
            if self._t is None:
                for n in mod.defined:
                    if "sol" not in n: continue
                    f = mod.func(n)
                    if [a.ty.k for a in f.args] == ["ptr", "ptr", "int", "int"] and any(i.op in ("call", "invoke") and i.attr["callee"].kind == "func" and i.attr["callee"].name == n for b in f.blocks for _, i in b.insts): self._t = n; break
                mod.funcs = {}
        return self._t
    def setup(self, E, st, case):
        n = z3.BitVec("n", 64)
        a = E.new_array(st, "a", ir.I32, n); b = E.new_array(st, "b", ir.F32, n)
        return [Ptr(a), Ptr(b), z3.BitVec("low", 64), z3.BitVec("high", 64)]
    def bind(self, E, st, a):
        if len(a) != 4 or not all(isinstance(x, Ptr) and x.r is not None and x.r.kind == "array" and x.off.conc() and x.off.c == 0 for x in a[:2]): raise ShapeMismatch("arguments of the sort")
        return {"a": a[0].r, "b": a[1].r, "A": st.mem[a[0].r].a, "B": st.mem[a[1].r].a, "n": st.mem[a[0].r].n, "m": st.mem[a[1].r].n, "lo": E.toint(a[2]), "hi": E.toint(a[3]), "st": st}
    def pre(self, E, st, e):
        lo, hi, A = e["lo"], e["hi"], e["A"]
        N = self.N(E, e)
        f = [("range inside the arrays", z3.And(z3.ULE(lo, hi), z3.ULT(hi, N), z3.ULT(e["n"], bv(LIM)), z3.ULE(N, e["n"]), z3.ULE(N, e["m"])))]
        if E.spec is self:
            if not hasattr(E, "qmeas"): # the function under verification: ghost bounds q <= A[k] <= p on the range
                E.qmeas = hi - lo; E.gq = z3.BitVec("gq", 32); E.gp = z3.BitVec("gp", 32)
                f += [("ghost lower bound", rng(lambda x: z3.ULE(E.gq, x), lo, hi, A)), ("ghost upper bound", rng(lambda x: z3.ULE(x, E.gp), lo, hi, A))]
            else: f.append(("the recursion gets smaller", z3.ULT(hi - lo, E.qmeas)))
        return f
    def N(self, E, e): return z3.BitVec("N", 64) if E.spec is self else E.env["v"].size     # counted positions
    def modifies(self, E, st, e): return {e["a"], e["b"]}
    def havoc(self, E, st, e, rt):
        for k in ("a", "b"):
            c = st.mem[e[k]]; st.mem[e[k]] = ArrC(E.fresh_array(e[k].name, e[k].elem), c.n); E.note_write(e[k], "a")
    def post(self, E, old, st, e, ret):
        A, B = st.mem[e["a"]].a, st.mem[e["b"]].a; lo, hi = e["lo"], e["hi"]; C = cnt(E, self.N(E, e))
        f = [("sorted", sorted_(A, lo, hi)), ("pairs outside the range are untouched", z3.And(out(lo, hi, A, e["A"]), out(lo, hi, B, e["B"]))),
             ("same pairs, each as often as before", C(A, B) == C(e["A"], e["B"]))]
        if old is E.old: f += [("lower bound kept", rng(lambda x: z3.ULE(E.gq, x), lo, hi, A)), ("upper bound kept", rng(lambda x: z3.ULE(x, E.gp), lo, hi, A))]
        else:
            # ghost arguments of this call: every bound that provably holds of the range before holds after it
            A0 = e["A"]
            for b in ([E.gq, E.gp] if hasattr(E, "gq") else []) + [z3.Select(A0, simp(lo - 1)), z3.Select(A0, simp(hi + 1))]:
                for fn in ((lambda x, b=b: z3.ULE(b, x)), (lambda x, b=b: z3.ULE(x, b))):
                    if E.prove(old.pc, rng(fn, lo, hi, A0), timeout=25000)[0] == "proved": f.append(("bound", rng(fn, lo, hi, A)))
        return f
    def loop(self, L):
        E = L.engine; e = E.env; A, B = L.head.mem[e["a"]].a, L.head.mem[e["b"]].a; lo, hi, A0, B0 = e["lo"], e["hi"], e["A"], e["B"]
        C = cnt(E, self.N(E, e)); o = []
        o += [rng(lambda x: z3.ULE(E.gq, x), lo, hi, A), rng(lambda x: z3.ULE(x, E.gp), lo, hi, A), out(lo, hi, A, A0), out(lo, hi, B, B0), C(A, B) == C(A0, B0)]
        pt, pb = z3.Select(A0, lo), z3.Select(B0, lo)
        pos = [s for s, _ in L.accs if z3.is_bv(s) and s.size() == 64]
        # the position variables of the loop: the phis, whatever form (strided ones are entry value + k*stride)
        for v in L.phis.values():
            if isinstance(v, z3.ExprRef) and z3.is_bv(v) and v.size() == 64 and not any(v.eq(x) for x in pos): pos.append(v)
        for v, x in L.entry.env.items():
            if isinstance(x, z3.ExprRef) and z3.is_bv(x) and x.size() == 64 and not z3.is_bv_value(x) and x.num_args() == 0 and not any(x.eq(y) for y in pos) and len(pos) < 8: pos.append(x)
        for i in pos:
            o += [z3.ULE(lo, i), z3.ULE(i, hi), C(A, B) - C.M(z3.Select(A, i), z3.Select(B, i)) + C.M(pt, pb) == C(A0, B0)]
            q = z3.BitVec("ql", 64)
            o += [z3.ForAll([q], z3.Implies(z3.And(z3.ULE(lo, q), z3.ULT(q, i)), z3.ULE(z3.Select(A, q), pt)), patterns=[z3.Select(A, q)]),
                  z3.ForAll([q], z3.Implies(z3.And(z3.ULT(i, q), z3.ULE(q, hi)), z3.ULE(pt, z3.Select(A, q))), patterns=[z3.Select(A, q)])]
            o += [z3.ULE(i, j) for j in pos if not j.eq(i)]
        o += [z3.ULE(E.gq, pt), z3.ULE(pt, E.gp)]
        return o

class DP(Contract):
    def __init__(self): pass
    cases = ("buf",)
    def target(self, mod): return self.sym
    def mk(self, E, st, name="dp", case="buf"):
        r = E.new_struct(st, name, 40)
        return mk_svec(E, st, name, "buf", r=r, inner=case)
    def setup(self, E, st, case): return [self.mk(E, st, case=case)]
    def bind(self, E, st, a):
        v = SVec(E, st, a[0]); return {"p": a[0], "v": v, "lab": E.load(st, a[0].at(32), ir.I32)}
    def pre(self, E, st, e): return e["v"].wf()
class IsSorted(DP):
    title = "DataPoint::IsSorted"; sym = "v_is_sorted"
    cases = ("buf", "empty")
    def post(self, E, old, st, e, ret):
        v = e["v"]
        if v.idx.dr is None: return [("yes for no features", ret)]
        q = z3.BitVec("qs", 64); A = v.idx.arr
        # witness for "no": the contract exports it through the loop variable; stated as the negation of the universal
        inc = z3.ForAll([q], z3.Implies(z3.And(z3.ULE(1, q), z3.ULT(q, v.size)), z3.ULT(z3.Select(A, q - 1), z3.Select(A, q))), patterns=[z3.Select(A, q)])
        return [("yes exactly for strictly increasing indexes", z3.If(ret, inc, z3.Not(inc)) if False else z3.And(z3.Implies(ret, inc), z3.Implies(inc, ret)))]
    def loop(self, L):
        E = L.engine; v = E.env["v"]; q = z3.BitVec("qs", 64); k = L.k
        if v.idx.dr is None: return []
        A = v.idx.arr
        inc = lambda b: z3.ForAll([q], z3.Implies(z3.And(z3.ULE(1, q), z3.ULT(q, b)), z3.ULT(z3.Select(A, q - 1), z3.Select(A, q))), patterns=[z3.Select(A, q)])
        return [inc(k + 1), inc(k), z3.ULE(k, v.size), z3.ULT(k, v.size)]
class Sort(DP):
    title = "DataPoint::Sort"; sym = "v_sort"
    cases = ("buf", "empty")
    opts = {"no_merge": True, "cand_timeout": 4000, "timeout": 20000}
    def modifies(self, E, st, e): return {x.dr for x in (e["v"].idx, e["v"].val) if x.dr is not None}
    def post(self, E, old, st, e, ret):
        v = e["v"]; w = SVec(E, st, e["p"])
        f = [("number of features", w.size == v.size), ("label", E.load(st, e["p"].at(32), ir.I32) == e["lab"])]
        if v.idx.dr is None: return f
        C = cnt(E, v.size)
        same = w.idx.dr is v.idx.dr and w.val.dr is v.val.dr
        if not same: return f + [("sorted in place", FALSE)]
        f += [("indexes are in order", z3.Implies(v.size != 0, sorted_(w.idx.arr, bv(0), v.size - 1))), ("same pairs, each as often as before", C(w.idx.arr, w.val.arr) == C(v.idx.arr, v.val.arr)),
              ("nothing beyond the features changes", z3.Implies(v.size != 0, z3.And(out(bv(0), v.size - 1, w.idx.arr, v.idx.arr), out(bv(0), v.size - 1, w.val.arr, v.val.arr))))]
        return f
    def loop(self, L):
        E = L.engine; v = E.env["v"]; k = L.k
        if v.idx.dr is None: return []
        A = v.idx.arr
        inc2 = lambda b: sorted_(A, bv(0), b)
        return [inc2(k), z3.ULT(k, v.size), z3.ULE(k, v.size)]
class Clone(DP):
    title = "DataPoint::Clone"; sym = "v_clone"
    def setup(self, E, st, case): return [self.mk(E, st, "src"), self.mk(E, st, "dst")]
    def bind(self, E, st, a):
        return {"p": a[0], "v": SVec(E, st, a[0]), "lab": E.load(st, a[0].at(32), ir.I32), "q": a[1], "w": SVec(E, st, a[1])}
    def pre(self, E, st, e): return e["v"].wf() + e["w"].wf() + [("size", z3.ULT(e["v"].size, bv(LIM >> 2)))]
    def modifies(self, E, st, e): return e["w"].regions() | {e["q"].r}
    def post(self, E, old, st, e, ret):
        v = e["v"]; w = SVec(E, st, e["q"])
        return [("label", E.load(st, e["q"].at(32), ir.I32) == e["lab"]), ("size", z3.And(w.idx.size == v.size, w.val.size == v.size)), ("indexes", fa(1, lambda j: z3.Implies(z3.ULT(j, v.size), w.idx.at(j) == v.idx.at(j)), lambda j: w.idx.at(j))),
                ("values", fa(1, lambda j: z3.Implies(z3.ULT(j, v.size), w.val.at(j) == v.val.at(j)), lambda j: w.val.at(j)))]
def contracts(): return [f(t) for t in "fj" for f in (VecResize, VecPushBack)] + [QSort(), IsSorted(), Sort(), Clone()]
