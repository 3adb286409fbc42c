"""C06: containers — growth, copies, release."""
import z3
from irv import llvmir as ir
from irv.engine import *
from irv.contract import Contract
from irv.views import *
from specs.vec import VecResize, VecPushBack, VecMethod

F = ir.F32
def kept(E, v, w, ty, extra=None):
    """contents of vector w after growing v"""
    f = [("capacity never shrinks", z3.UGE(w.cap, v.cap)), ("size within capacity", z3.ULE(w.size, w.cap)), ("reference count", w.count == (v.count if v.init else 1))]
    if w.dr is not None:
        f.append(("capacity is the allocation", E.nelem(w.st, w.dp) == w.cap))
        no = (lambda j: TRUE) if extra is None else (lambda j: j != extra)
        if v.dr is not None: f.append(("existing elements are kept", fa(1, lambda j: z3.Implies(z3.And(z3.ULT(j, v.cap), no(j)), w.at(j) == v.at(j)), lambda j: w.at(j))))
        f.append(("new capacity is zero", fa(1, lambda j: z3.Implies(z3.And(z3.ULE(v.cap, j), z3.ULT(j, w.cap), no(j)), w.at(j) == E.zero(ty)), lambda j: w.at(j))))
    else: f.append(("no storage only without capacity", w.cap == 0))
    return f
class Vf(Contract):
    cases = ("null", "empty", "buf"); sym = None
    def target(self, mod): return self.sym
    def setup(self, E, st, case): return [mk_vec(E, st, "vec", F, case)]
    def bind(self, E, st, a): return {"v": Vec(E, st, a[0], F), "p": a[0]}
    def pre(self, E, st, e): return e["v"].wf()
    modifies = VecResize.modifies
class VClear(Vf):
    title = "Vector::clear"; sym = "v_vec_clear"
    def post(self, E, old, st, e, ret):
        w = Vec(E, st, e["p"], F); return [("no elements", w.size == 0), ("one row", w.rows == 1), ("capacity unchanged", w.cap == e["v"].cap)] + kept(E, e["v"], w, F)
class VPop(Vf):
    title = "Vector::pop_back"; sym = "v_vec_pop"; cases = ("empty", "buf")
    may_not_return = True
    def pre(self, E, st, e): return e["v"].wf() + [("size", z3.ULT(e["v"].size, bv(LIM >> 2)))]
    def throws(self, E, st, e): return e["v"].size == 0
    def post(self, E, old, st, e, ret):
        w = Vec(E, st, e["p"], F); return [("one element less", w.size == e["v"].size - 1), ("capacity unchanged", w.cap == e["v"].cap)] + kept(E, e["v"], w, F)
class VReserve(Vf):
    title = "Matrix::reserve"; sym = "v_vec_reserve"
    def setup(self, E, st, case): return [mk_vec(E, st, "vec", F, case), z3.BitVec("n", 64)]
    def bind(self, E, st, a): return {"v": Vec(E, st, a[0], F), "p": a[0], "n": E.toint(a[1])}
    def pre(self, E, st, e): return e["v"].wf() + [("n", z3.ULT(e["n"], bv(LIM)))]
    def post(self, E, old, st, e, ret):
        v = e["v"]; w = Vec(E, st, e["p"], F); return [("capacity covers the request", w.cap == z3.If(z3.UGT(e["n"], v.cap), e["n"], v.cap)), ("size unchanged", w.size == v.size)] + kept(E, v, w, F)
class VMake(Contract):
    title = "Vector(size)"
    def target(self, mod): return "v_vec_make"
    def setup(self, E, st, case): return [Ptr(E.new_struct(st, "vec", 32)), z3.BitVec("n", 64)]
    def bind(self, E, st, a): return {"p": a[0], "n": a[1]}
    def pre(self, E, st, e): return [("n", z3.ULT(e["n"], bv(LIM >> 2)))]
    def modifies(self, E, st, e): return {e["p"].r}
    def post(self, E, old, st, e, ret):
        w = Vec(E, st, e["p"], F)
        f = [("size", w.size == e["n"]), ("one row", w.rows == 1), ("capacity covers the size", z3.UGE(w.cap, w.size)), ("count", w.count == 1)]
        if w.dr is not None: f += [("allocation", E.nelem(st, w.dp) == w.cap), ("zero", fa(1, lambda j: z3.Implies(z3.ULT(j, w.cap), w.at(j) == E.zero(F)), lambda j: w.at(j)))]
        else: f.append(("storage exists", e["n"] == 0))
        return f
    loop = lambda self, L: grow_loop(L, bv(0), L.engine.env["n"])
def grow_loop(L, cap, n):
    out = []
    for s, e in L.accs:
        if z3.is_bv(s) and s.size() == 64: out += [z3.ULT(s, bv(LIM)), z3.ULT(s, n), z3.UGE(s, cap), z3.ULT(s, n + n + bv(8))]
    return out
class MResize(Vf):
    title = "Matrix::resize"; sym = "v_mat_resize"
    def setup(self, E, st, case):
        s = E.new_struct(st, "shape_arg", 16)
        return [mk_vec(E, st, "mat", F, case), Ptr(s)]
    def bind(self, E, st, a):
        r, c = E.load(st, a[1], ir.I64), E.load(st, a[1].at(8), ir.I64)
        return {"v": Vec(E, st, a[0], F), "p": a[0], "r": r, "c": c, "n": r * c}
    def wfm(self, v):
        if not v.init: return []
        f = [("elements within capacity", z3.And(z3.ULE(v.rows * v.size, v.cap))), ("capacity is bounded", z3.ULT(v.cap, bv(LIM))), ("count", z3.And(v.count >= 1, v.count < (1 << 30)))]
        f.append(("capacity is the allocation", v.cap == 0 if v.dr is None else v.E.nelem(v.st, v.dp) == v.cap))
        return f
    def pre(self, E, st, e): return self.wfm(e["v"]) + [("rows", z3.ULT(e["r"], bv(1 << 20))), ("cols", z3.ULT(e["c"], bv(1 << 18)))]
    def post(self, E, old, st, e, ret):
        v = e["v"]; w = Vec(E, st, e["p"], F)
        return [("rows", w.rows == e["r"]), ("columns", w.size == e["c"]), ("capacity covers rows x columns", z3.UGE(w.cap, e["n"])), ("no growth without need", z3.Implies(z3.ULE(e["n"], v.cap), w.cap == v.cap))] + [x for x in kept(E, v, w, F) if x[0] != "size within capacity"]
    loop = lambda self, L: grow_loop(L, L.engine.env["v"].cap, L.engine.env["n"])

# ---- sharing. A handle is {vptr, a*, b*, count*}
PARTS = (8, 16, 24)
def handle(E, st, p): return [E.load(st, p.at(o), ir.PTR) for o in PARTS]
class Handle(Contract):
    sparse = False
    def mk(self, E, st, name, case="buf"): return mk_svec(E, st, name, case) if self.sparse else mk_vec(E, st, name, F, case)
    def view(self, E, st, p): return SVec(E, st, p) if self.sparse else Vec(E, st, p, F)
    def owned(self, v):
        if not v.init: return set()
        if self.sparse: return v.regions()
        return {v.sp.r, v.hp.r, v.cp.r} | ({v.dr} if v.dr is not None else set())
    def __init__(self, sparse=False):
        self.sparse = sparse; self.sym = ("v_svec_" if sparse else "v_vec_") + self.op; self.title = ("SVector " if sparse else "Vector ") + self.what
    def target(self, mod): return self.sym
    def share(self, E, st, name, p):
        r = E.new_struct(st, name, 32); d = dict(st.mem[p.r]); st.mem[r] = dict(d); return Ptr(r)
    def gone(self, st, v): return [r for r in self.owned(v) if r in st.freed]
    def released(self, E, old, st, v):
        """v's handle let go: storage released exactly when it was the last one"""
        if not v.init: return [("nothing to release", TRUE)]
        g = self.gone(st, v)
        if not g: return [("still shared: kept", v.count != 1), ("one handle less", E.load(st, v.cp, ir.I32) == v.count - 1)]
        if len(g) != len(self.owned(v)): return [("all parts released together: %s of %s" % (sorted(r.name for r in g), sorted(r.name for r in self.owned(v))), FALSE)]
        return [("released only with the last handle", v.count == 1)]
    def contents_kept(self, E, old, st, v):
        out = []
        from irv.contract import unchanged
        for r in self.owned(v):
            if r is v.cp.r: continue
            if r in st.freed: out.append(("contents not released", FALSE)); continue
            out += unchanged(E, old, st, r)
        return out
class HCopy(Handle):
    op = "copy"; what = "copy construction"; cases = ("buf", "null")
    def setup(self, E, st, case): return [Ptr(E.new_struct(st, "dst", 32)), self.mk(E, st, "src", case)]
    def bind(self, E, st, a): return {"d": a[0], "s": a[1], "v": self.view(E, st, a[1])}
    def pre(self, E, st, e): return e["v"].wf()
    def modifies(self, E, st, e): return {e["d"].r} | ({e["v"].cp.r} if e["v"].init else set())
    def post(self, E, old, st, e, ret):
        v = e["v"]
        same = all(same_val(x, y) for x, y in zip(handle(E, st, e["d"]), handle(E, st, e["s"])))
        f = [("the copy shares the storage", z3.BoolVal(same))]
        if v.init: f += [("one handle more", E.load(st, v.cp, ir.I32) == v.count + 1)] + self.contents_kept(E, old, st, v)
        return f
class HAssign(Handle):
    op = "assign"; what = "assignment"; cases = ("buf", "dst null", "src null", "both null", "shared", "self")
    def setup(self, E, st, case):
        s = self.mk(E, st, "src", "null" if case in ("src null", "both null") else "buf")
        if case == "self": return [s, s]
        if case == "shared": return [self.share(E, st, "dst", s), s]
        return [self.mk(E, st, "dst", "null" if case in ("dst null", "both null") else "buf"), s]
    def bind(self, E, st, a): return {"d": a[0], "s": a[1], "v": self.view(E, st, a[1]), "o": self.view(E, st, a[0])}
    def pre(self, E, st, e): return e["v"].wf() + e["o"].wf()
    def modifies(self, E, st, e):
        m = {e["d"].r} | self.owned(e["o"]) | ({e["v"].cp.r} if e["v"].init else set())
        if e["d"].r is e["s"].r or (e["v"].init and e["o"].init and e["v"].cp.r is e["o"].cp.r): m = {e["d"].r} if e["d"].r is not e["s"].r else set()
        return m
    def post(self, E, old, st, e, ret):
        v, o = e["v"], e["o"]
        f = [("the target shares the source's storage", z3.BoolVal(all(same_val(x, y) for x, y in zip(handle(E, st, e["d"]), handle(E, st, e["s"])))))]
        if v.init and o.init and v.cp.r is o.cp.r: return f + [("count unchanged", E.load(st, v.cp, ir.I32) == v.count)]
        f += self.released(E, old, st, o)
        if v.init: f += [("one handle more", E.load(st, v.cp, ir.I32) == v.count + 1)] + self.contents_kept(E, old, st, v)
        return f
class HDestroy(Handle):
    op = "destroy"; what = "destruction"; cases = ("buf", "null")
    def setup(self, E, st, case): return [self.mk(E, st, "vec", case)]
    def bind(self, E, st, a): return {"d": a[0], "v": self.view(E, st, a[0])}
    def pre(self, E, st, e):
        f = e["v"].wf()
        if self.sparse and e["v"].init: f = f + [("parts are owned once", z3.And(e["v"].idx.count == 1, e["v"].val.count == 1))]
        return f
    def modifies(self, E, st, e): return {e["d"].r} | self.owned(e["v"])
    def post(self, E, old, st, e, ret): 
        f = self.released(E, old, st, e["v"])
        if e["v"].init and not self.gone(st, e["v"]): f += self.contents_kept(E, old, st, e["v"])
        return f
class SAssign(HAssign):
    def pre(self, E, st, e): return HAssign.pre(self, E, st, e) + [("parts are owned once", z3.And(v.idx.count == 1, v.val.count == 1)) for v in (e["v"], e["o"]) if v.init]

class SVf(Contract):
    cases = ("null", "buf")
    def target(self, mod): return self.sym
    def setup(self, E, st, case): return [mk_svec(E, st, "sv", case)]
    def bind(self, E, st, a): return {"v": SVec(E, st, a[0]), "p": a[0], "a": [E.toint(x) for x in a[1:]]}
    def pre(self, E, st, e): return e["v"].wf()
    def modifies(self, E, st, e): return {e["p"].r} if not e["v"].init else e["v"].regions()
    def grown(self, E, old, st, e, size, at=None):
        v, w = e["v"], SVec(E, st, e["p"])
        f = [("as many indexes as values", w.idx.size == w.val.size), ("size", w.size == size), ("handles", w.count == (v.count if v.init else 1))]
        for nm in ("idx", "val"):
            a = getattr(w, nm); ty = a.ty
            if v.init: f += [(nm + ": " + x, y) for x, y in kept(E, getattr(v, nm), a, ty, at)]
            else: f += [(nm + " capacity", z3.ULE(a.size, a.cap))] + ([(nm + " zero", fa(1, lambda j: z3.Implies(z3.And(z3.ULT(j, a.cap), j != (at if at is not None else bv(-1))), a.at(j) == E.zero(ty)), lambda j: a.at(j)))] if a.dr is not None else [])
        return f, w
class SResize(SVf):
    title = "SVector::resize"; sym = "v_svec_resize"
    def setup(self, E, st, case): return [mk_svec(E, st, "sv", case), z3.BitVec("n", 64)]
    def pre(self, E, st, e): return e["v"].wf() + [("n", z3.ULT(e["a"][0], bv(LIM >> 2)))]
    def post(self, E, old, st, e, ret): return self.grown(E, old, st, e, e["a"][0])[0]
class SClear(SVf):
    title = "SVector::clear"; sym = "v_svec_clear"
    def post(self, E, old, st, e, ret): return self.grown(E, old, st, e, bv(0))[0]
class SPush(SVf):
    title = "SVector::push_back"; sym = "v_svec_push"
    def setup(self, E, st, case): return [mk_svec(E, st, "sv", case), z3.BitVec("i", 32), E.fresh(ir.F32, "x")]
    def pre(self, E, st, e): return e["v"].wf() + [("size", z3.ULT(e["v"].size, bv((LIM >> 2) - 2)))]
    def post(self, E, old, st, e, ret):
        n = e["v"].size
        f, w = self.grown(E, old, st, e, n + 1, n)
        if w.idx.dr is None or w.val.dr is None: return f + [("has storage", FALSE)]
        return f + [("index is last", w.idx.at(n) == e["a"][0]), ("value is last", w.val.at(n) == e["a"][1])]
def contracts():
    return [f(t) for t in "fj" for f in (VecResize, VecPushBack)] + [VClear(), VPop(), VReserve(), VMake(), MResize(), HCopy(), HAssign(), HDestroy(), HCopy(True), SAssign(True), HDestroy(True), SResize(), SClear(), SPush()]
