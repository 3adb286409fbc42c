"""Contracts of Matrix/Vector/SVector storage operations."""
import z3
from irv import llvmir as ir
from irv.engine import *
from irv.contract import Contract
from irv.views import *

def realloc_data(E, st, v, ty, newcap):
    """the vector's buffer becomes a fresh region (a resize may or may not move it)"""
    R = Region("%s.data" % v.p.r.name.split(".")[0], "array", ty); R.heap = True
    st.mem[R] = ArrC(E.fresh_array(R.name, ty), newcap)
    if v.dr is not None: st.freed = st.freed | {v.dr}; E.note_write(v.dr, "freed")
    d = dict(st.mem[v.sp.r]); d[v.sp.off.c] = (Ptr(R), ir.PTR); d[v.sp.off.c + 8] = (newcap, ir.I64); st.mem[v.sp.r] = d
    E.note_write(v.sp.r, v.sp.off.c); E.note_write(v.sp.r, v.sp.off.c + 8)
    return R
def init_vec(E, st, p, ty):
    name = p.r.name
    s = E.new_struct(st, name + ".storage", 16); h = E.new_struct(st, name + ".shape", 16); c = E.new_struct(st, name + ".count", 4)
    for x in (s, h, c): x.heap = True
    o = p.off.c
    for off, r in ((8, s), (16, h), (24, c)): E.store(st, p.at(off), Ptr(r), ir.PTR)
    st.mem[s] = {0: (NULL, ir.PTR), 8: (bv(0), ir.I64)}; st.mem[h] = {0: (bv(0), ir.I64), 8: (bv(0), ir.I64)}; st.mem[c] = {0: (bv(1, 32), ir.I32)}

class VecMethod(Contract):
    def __init__(self, t): self.t = t; self.ty = TY[t]; self.title = self.title % self.tn()
    def tn(self): return {"c": "char", "t": "uint16", "j": "uint32", "m": "uint64", "f": "float"}[self.t]

class VecResize(VecMethod):
    title = "Vector<%s>::resize"
    cases = ("null", "empty", "buf")
    def target(self, mod): return "_ZN3sol4math6VectorI%sE6resizeEm" % self.t
    def setup(self, E, st, case):
        return [mk_vec(E, st, "vec", self.ty, case), z3.BitVec("new_size", 64)]
    def bind(self, E, st, a): return {"v": Vec(E, st, a[0], self.ty), "p": a[0], "n": E.toint(a[1])}
    def pre(self, E, st, e):
        return e["v"].wf() + [("requested size is bounded", z3.ULT(e["n"], bv(LIM >> 2)))]
    def modifies(self, E, st, e):
        v = e["v"]
        if not v.init: return {e["p"].r}
        m = {v.sp.r, v.hp.r}
        if v.dr is not None: m.add(v.dr)
        return m
    def havoc(self, E, st, e, retty):
        v = e["v"]
        if not v.init:
            init_vec(E, st, e["p"], self.ty)
            v = Vec(E, st, e["p"], self.ty)
        cap = z3.BitVec(E.name("cap"), 64)
        realloc_data(E, st, v, self.ty, cap)
        E.store(st, v.hp.at(0), bv(1), ir.I64); E.store(st, v.hp.at(8), z3.BitVec(E.name("size"), 64), ir.I64)
    def post(self, E, old, st, e, ret):
        v = e["v"]; w = Vec(E, st, e["p"], self.ty); n = e["n"]
        f = [("size is the requested size", w.size == n), ("one row", w.rows == 1), ("capacity never shrinks", z3.UGE(w.cap, v.cap)), ("capacity covers the size", z3.UGE(w.cap, n)),
             ("capacity bounded", z3.ULT(w.cap, bv(LIM)))]
        if v.init: f.append(("reference count unchanged", w.count == v.count))
        else: f.append(("reference count is one", w.count == 1))
        f.append(("no growth without need", z3.Implies(z3.ULE(n, v.cap), w.cap == v.cap)))
        if w.dr is not None:
            f.append(("capacity is the allocation", E.nelem(st, w.dp) == w.cap))
            if v.dr is not None:
                f.append(("existing elements are kept", fa(1, lambda j: z3.Implies(z3.ULT(j, v.cap), w.at(j) == v.at(j)), lambda j: w.at(j))))
            f.append(("new capacity is zero", fa(1, lambda j: z3.Implies(z3.And(z3.ULE(v.cap, j), z3.ULT(j, w.cap)), w.at(j) == E.zero(self.ty)), lambda j: w.at(j))))
        else: f.append(("no data only if nothing is needed", z3.And(n == 0, w.cap == 0)))
        return f
    def loop(self, L):
        # the capacity-doubling loop: stays bounded
        out = []
        n = L.engine.env["n"]
        for s, e in L.accs:
            if z3.is_bv(s) and s.size() == 64:
                v = L.engine.env["v"]
                out += [z3.ULT(s, bv(LIM)), z3.ULT(s, n), z3.UGE(s, v.cap), z3.ULT(s, n + n + bv(8))]
        return out

class VecPushBack(VecMethod):
    title = "Vector<%s>::push_back"
    cases = ("null", "empty", "buf", "own element")
    def target(self, mod): return "_ZN3sol4math6VectorI%sE9push_backERK%s" % (self.t, self.t)
    def setup(self, E, st, case):
        p = mk_vec(E, st, "vec", self.ty, "buf" if case == "own element" else case)
        if case == "own element":
            v = Vec(E, st, p, self.ty); i = z3.BitVec("own", 64); st.assume(z3.ULT(i, v.size))
            return [p, Ptr(v.dr, Off(0, ((self.ty.size, i),)))]
        r = E.new_struct(st, "elem", self.ty.size); E.load(st, Ptr(r), self.ty)
        return [p, Ptr(r)]
    def bind(self, E, st, a):
        v = Vec(E, st, a[0], self.ty)
        q = a[1]
        return {"v": v, "p": a[0], "x": E.load(st, q, self.ty)}
    def pre(self, E, st, e): return e["v"].wf() + [("size is bounded", z3.ULT(e["v"].size, bv((LIM >> 2) - 2)))]
    modifies = VecResize.modifies
    havoc = VecResize.havoc
    def post(self, E, old, st, e, ret):
        v = e["v"]; w = Vec(E, st, e["p"], self.ty)
        f = [("size grows by one", w.size == v.size + 1), ("one row", w.rows == 1), ("capacity never shrinks", z3.UGE(w.cap, v.cap)), ("size<=capacity", z3.ULE(w.size, w.cap)), ("capacity bounded", z3.ULT(w.cap, bv(LIM))),
             ("reference count", w.count == (v.count if v.init else 1)),
             ("no growth without need", z3.Implies(z3.ULT(v.size, v.cap), w.cap == v.cap))]
        if w.dr is None: return f + [("has data", FALSE)]
        f += [("capacity is the allocation", E.nelem(st, w.dp) == w.cap), ("the new element is last", w.at(v.size) == e["x"])]
        if v.dr is not None: f.append(("existing elements are kept", fa(1, lambda j: z3.Implies(z3.And(z3.ULT(j, v.cap), j != v.size), w.at(j) == v.at(j)), lambda j: w.at(j))))
        f.append(("new capacity is zero", fa(1, lambda j: z3.Implies(z3.And(z3.ULE(v.cap, j), z3.ULT(j, w.cap), j != v.size), w.at(j) == E.zero(self.ty)), lambda j: w.at(j))))
        return f
