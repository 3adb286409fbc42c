"""The feature budget: after an update every feature outside the selection has weight zero. The heap operations
are used through the membership part of their contracts (C07), kept as a ghost set of selected features."""
import z3
from irv import llvmir as ir
from irv.engine import *
from irv.views import *
from specs.model import *
from specs.model import F, zx
ZERO = lambda: c_(0.0)
def sel(E, st): return st.mem[E.sel].a
def is_in(A, i): return z3.Select(A, i) != bv(0, 8)
def h_update(E, st, a, I):
    """Heap::UpdateHeap by the membership part of its contract (C07)"""
    idx = zx(a[1]) if a[1].size() == 32 else a[1]; N = E.heapN; A = sel(E, st); out = []
    E.oblige(st, z3.ULT(idx, N), "call", "UpdateHeap: a feature of the heap", I.line)
    s1 = st.copy(); s1.assume(is_in(A, idx)); out.append(Outcome("ret", s1, val=bv(-1, 32)))
    s2 = st.copy(); s2.assume(z3.Not(is_in(A, idx))); out.append(Outcome("ret", s2, val=a[1]))
    s3 = st.copy(); t = z3.BitVec(E.name("left"), 32); s3.assume(z3.And(z3.Not(is_in(A, idx)), is_in(A, zx(t)), z3.ULT(zx(t), N))); s3.mem[E.sel] = ArrC(z3.Store(z3.Store(A, zx(t), bv(0, 8)), idx, bv(1, 8)), st.mem[E.sel].n); E.note_write(E.sel, "a"); out.append(Outcome("ret", s3, val=t))
    return out
def h_same(E, st, a, I):
    """Heap::BuildHeap and AdjustHeap keep the members (C07)"""
    if getattr(E, "q", None) is not None: r = Vec(E, st, E.q, ir.I32).dr; st.mem[r] = ArrC(E.fresh_array("id2pos", ir.I32), st.mem[r].n); E.note_write(r, "a")
    return None
H = "_ZN3sol4HeapINS_4math4expr2op%sEE"
HEAP = {}
for n in ("6larger", "7smaller"): HEAP[H % n + "10UpdateHeapEj"] = h_update; HEAP[H % n + "9BuildHeapEv"] = h_same; HEAP[H % n + "10AdjustHeapEjj"] = h_same
class Budget(ModelC):
    opts = dict(ModelC.opts, budget=300, timeout=20000); reals = (); cases = ("two classes",)
    def __init__(self, cls, fn, title, arrs=(), vecs=(), reals=(), pow=False, cases=("two classes",), extra=()): self.cls = cls; self.fn = fn; self.title = title; self.arrs = arrs; self.vecs = vecs; self.reals = reals; self.pow = pow; self.cases = cases
    def target(self, mod): return self.fn
    def setup(self, E, st, case):
        a = ModelC.setup(self, E, st, case)
        E.sel = E.new_array(st, "selected", ir.I8, bv(1 << 33)); self.E = E
        if self.fn.startswith("e_"): return a[:1]
        return a
    def more(self, E, st):
        if self.fn.startswith("e_"): return []
        self.pr = E.new_array(st, "predicts", ir.F32, bv(self.m.K)); self.loss = z3.Const("loss", F32); return [Ptr(self.pr), self.loss]
    def bind(self, E, st, a):
        e = ModelC.bind(self, E, st, a); E.heapN = zx(e["o"].i["dim"]) - 1
        if self.cls == "FOFS": e["B"] = E.load(st, self.m.p.at(off(E, "FOFS_B")), ir.I32) 
        else: e["B"] = F.conv("fptoui", E.load(st, self.m.p.at(off(E, self.cls + "_B")), ir.F32), z3.BitVecSort(32))
        return e
    def pre(self, E, st, e): return ModelC.pre(self, E, st, e) + [("a budget is set", e["B"] != 0)]
    def modifies(self, E, st, e): return self.wdata(e, *([n for n in e["o"].a] + list(e["o"].v))) | {E.sel} | self.cells("eta") | {(self.m.r, off(E, "OnlineLinearModel_mu"))}
    def outside(self, e, st, A, lim):
        j = z3.BitVec("oj", 64); W = [z3.Select(st.mem[v.dr].a, j + 1) for v in e["o"].a["w"]]; W = [z3.Select(st.mem[v.dr].a, j) for v in e["o"].a["w"]]
        return z3.ForAll([j], z3.Implies(z3.And(z3.ULE(1, j), z3.ULE(j, lim), z3.Not(is_in(A, j - 1))), z3.And([w == ZERO() for w in W])), patterns=[W[0]])
    def loop(self, L):
        E = L.engine; e = E.env; o = ModelC.loop(self, L); A = L.head.mem[E.sel].a
        for v in L.phis.values():
            if isinstance(v, z3.ExprRef) and z3.is_bv(v) and v.size() in (32, 64): V = zx(v) if v.size() == 32 else v; o += [z3.ULE(V, zx(e["o"].i["dim"])), self.outside(e, L.head, A, V), self.outside(e, L.head, A, V - 1)]
        return o
    def post(self, E, old, st, e, ret):
        return [("every feature outside the selection has weight zero in every class", self.outside(e, st, sel(E, st), zx(e["o"].i["dim"]) - 1))]
class Step(Budget):
    """learners that touch only the example's features: the invariant is kept"""
    def setup(self, E, st, case):
        a = Budget.setup(self, E, st, case); h = off(E, self.cls + "_heap"); self.q = mk_vec(E, st, "id2pos", ir.I32, "buf", r=self.m.r, off=h + off(E, "Heap_id2pos")); row(E, st, self.q); E.q = self.q
        return a
    def pre(self, E, st, e):
        q = Vec(E, st, self.q, ir.I32); return Budget.pre(self, E, st, e) + q.wf() + [("one position per feature", q.size == zx(e["o"].i["dim"]) - 1), ("features outside the selection have weight zero", self.outside(e, st, sel(E, st), zx(e["o"].i["dim"]) - 1))]
    def modifies(self, E, st, e): return Budget.modifies(self, E, st, e) | {Vec(E, st, self.q, ir.I32).dr}
    def pending(self, e, st, A, k):
        x = e["x"]; j = z3.BitVec("pj", 64); W = [z3.Select(st.mem[v.dr].a, j) for v in e["o"].a["w"]]
        return z3.ForAll([j], z3.Implies(z3.And(z3.ULE(1, j), z3.ULT(j, zx(e["o"].i["dim"])), z3.Not(is_in(A, j - 1)), z3.Not(z3.And(x.has(j), z3.UGE(x.pos(j), k)))), z3.And([w == ZERO() for w in W])), patterns=[W[0]])
    def loop(self, L):
        E = L.engine; e = E.env; o = ModelC.loop(self, L); A = L.head.mem[E.sel].a; x = e["x"]
        o += [self.pending(e, L.head, A, bv(0)), self.outside(e, L.head, A, zx(e["o"].i["dim"]) - 1)]
        for v in L.phis.values():
            if isinstance(v, z3.ExprRef) and z3.is_bv(v) and v.size() == 64: o += [z3.ULE(v, x.n), self.pending(e, L.head, A, v)]
        return o
def contracts():
    S = " keeps no weight outside the selection"
    return [Budget("PET", "u_PET", "PET::Update: only selected features keep a weight", vecs=("PET_abs",), reals=("OGD_eta0", "OGD_power"), pow=True),
            Budget("FOFS", "u_FOFS", "FOFS::Update: only selected features keep a weight", vecs=("FOFS_abs",)),
            Budget("AdaRDA_OFS", "e_AdaRDA_OFS", "AdaRDA_OFS::EndTrain: only selected features keep a weight", arrs=("AdaRDA_H", "AdaRDA_ut")),
            Step("SOFS", "u_SOFS", "SOFS::Update" + S, arrs=("AROW_S",), reals=("AROW_r",)),
            Step("AdaFOBOS_OFS", "u_AdaFOBOS_OFS", "AdaFOBOS_OFS::Update" + S, arrs=("AdaFOBOS_H",), reals=("AdaFOBOS_delta",)),
            Step("AdaRDA_OFS", "u_AdaRDA_OFS", "AdaRDA_OFS::Update" + S, arrs=("AdaRDA_H", "AdaRDA_ut"), reals=("AdaRDA_delta",))]
