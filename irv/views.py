"""Heap shapes of the library's classes, as the contracts see them."""
import z3
from . import llvmir as ir
from .engine import *

TY = {"c": ir.I8, "t": ir.I16, "j": ir.I32, "m": ir.I64, "f": ir.F32, "d": ir.F64, "i": ir.I32}
LIM = 1 << 40        # sizes the contracts talk about stay below this (memory is finite)

def cell(E, st, p, off, ty):
    return E.load(st, p.at(off), ty)

class Vec:
    """Matrix<T>/Vector<T> object: {vptr, storage*, shape*, count*}; storage {T* begin, size_t size}; shape {rows, cols}"""
    def __init__(self, E, st, p, ty):
        self.E = E; self.st = st; self.p = p; self.ty = ty
        if not isinstance(p, Ptr) or p.r is None: raise ShapeMismatch("vector object expected")
        if p.r in st.freed: raise ShapeMismatch("vector object already released")
        self.sp = cell(E, st, p, 8, ir.PTR); self.hp = cell(E, st, p, 16, ir.PTR); self.cp = cell(E, st, p, 24, ir.PTR)
        for x in (self.sp, self.hp, self.cp):
            if not isinstance(x, Ptr): raise ShapeMismatch("vector fields are not plain pointers")
        n = [x.r is None for x in (self.sp, self.hp, self.cp)]
        if any(n) and not all(n): raise ShapeMismatch("half-initialised vector")
        self.init = not n[0]
        if self.init:
            for x in (self.sp, self.hp, self.cp):
                if x.r in st.freed: raise ShapeMismatch("vector storage already released")
            self.rows = cell(E, st, self.hp, 0, ir.I64); self.size = cell(E, st, self.hp, 8, ir.I64)
            self.cap = cell(E, st, self.sp, 8, ir.I64); self.dp = cell(E, st, self.sp, 0, ir.PTR)
            if not isinstance(self.dp, Ptr): raise ShapeMismatch("vector data pointer")
            self.count = cell(E, st, self.cp, 0, ir.I32)
            d = self.dp
            if d.r is not None:
                if isinstance(st.mem.get(d.r), tuple): E.retype(st, d, ty)
                if d.r in st.freed: raise ShapeMismatch("vector data already released")
                if d.r.kind != "array" or not (d.off.conc() and d.off.c == 0): raise ShapeMismatch("vector data is not the start of an array")
                if d.r.elem.size != ty.size: raise ShapeMismatch("vector element type")
        else:
            self.rows = self.size = self.cap = bv(0); self.dp = NULL; self.count = None
    @property
    def dr(self): return self.dp.r
    @property
    def arr(self): return self.st.mem[self.dp.r].a
    def at(self, i):
        return z3.Select(self.arr, self.dp.key, i) if self.dp.r.keys else z3.Select(self.arr, i)
    def wf(self):
        if not self.init: return []
        f = [("size<=capacity", z3.ULE(self.size, self.cap)), ("capacity is bounded", z3.ULT(self.cap, bv(LIM))), ("count>=1", self.count >= 1), ("count bounded", self.count < (1 << 30)),
             ("one row", z3.Or(self.rows == 1, self.size == 0))]
        if self.dr is None: f.append(("no data, no capacity", self.cap == 0))
        else: f.append(("capacity is the allocation", self.E.nelem(self.st, self.dp) == self.cap))
        return f

def mk_vec(E, st, name, ty, case="buf", keys=0, r=None, off=0):
    """a Vector<T> in state st. case: buf | empty | null. Returns Ptr to the object"""
    if r is None:
        r = E.new_struct(st, name, 32)
    d = dict(st.mem[r])
    d[off] = (VTab("Vector"), ir.PTR)
    if case == "null":
        for o in (8, 16, 24): d[off + o] = (NULL, ir.PTR)
        st.mem[r] = d
        return Ptr(r, Off(off))
    s = E.new_struct(st, name + ".storage", 16); h = E.new_struct(st, name + ".shape", 16); c = E.new_struct(st, name + ".count", 4)
    for x in (s, h, c): x.heap = True
    d[off + 8] = (Ptr(s), ir.PTR); d[off + 16] = (Ptr(h), ir.PTR); d[off + 24] = (Ptr(c), ir.PTR)
    st.mem[r] = d
    cap = z3.BitVec(E.name(name + ".cap"), 64)
    if case == "empty":
        st.mem[s] = {0: (NULL, ir.PTR), 8: (bv(0), ir.I64)}
        st.mem[h] = {0: (z3.BitVec(E.name(name + ".rows"), 64), ir.I64), 8: (bv(0), ir.I64)}
    else:
        dr = E.new_array(st, name + ".data", ty, cap); dr.heap = True
        st.mem[s] = {0: (Ptr(dr), ir.PTR), 8: (cap, ir.I64)}
        st.mem[h] = {0: (z3.BitVec(E.name(name + ".rows"), 64), ir.I64), 8: (z3.BitVec(E.name(name + ".size"), 64), ir.I64)}
    st.mem[c] = {0: (z3.BitVec(E.name(name + ".count"), 32), ir.I32)}
    return Ptr(r, Off(off))

def fa(n, fn, pat=None, name="q"):
    js = [z3.BitVec("%s%d" % (name, i), 64) for i in range(n)]
    b = fn(*js)
    if pat is not None:
        p = pat(*js)
        return z3.ForAll(js, b, patterns=p if isinstance(p, list) else [p])
    return z3.ForAll(js, b)

class SVec:
    """SVector<float>: {vptr, Vector<index_t>* indexes, Vector<float>* values, int* count}"""
    def __init__(self, E, st, p):
        self.E = E; self.st = st; self.p = p
        if not isinstance(p, Ptr) or p.r is None or p.r in st.freed: raise ShapeMismatch("sparse vector object expected")
        self.ip = cell(E, st, p, 8, ir.PTR); self.vp = cell(E, st, p, 16, ir.PTR); self.cp = cell(E, st, p, 24, ir.PTR)
        for x in (self.ip, self.vp, self.cp):
            if not isinstance(x, Ptr): raise ShapeMismatch("sparse vector fields are not plain pointers")
        n = [x.r is None for x in (self.ip, self.vp, self.cp)]
        if any(n) and not all(n): raise ShapeMismatch("half-initialised sparse vector")
        self.init = not n[0]
        if self.init:
            self.idx = Vec(E, st, self.ip, ir.I32); self.val = Vec(E, st, self.vp, ir.F32)
            self.count = cell(E, st, self.cp, 0, ir.I32); self.size = self.val.size
        else: self.size = bv(0)
    def wf(self):
        if not self.init: return []
        return [("indexes: " + a, f) for a, f in self.idx.wf()] + [("values: " + a, f) for a, f in self.val.wf()] + [("as many indexes as values", self.idx.size == self.val.size), ("count>=1", self.count >= 1), ("count bounded", self.count < (1 << 30))]
    def regions(self):
        if not self.init: return set()
        s = {self.ip.r, self.vp.r, self.cp.r}
        for v in (self.idx, self.val):
            if v.init: s |= {v.sp.r, v.hp.r, v.cp.r} | ({v.dr} if v.dr is not None else set())
        return s

def vptr(mangled): return (VTab("_ZTV" + mangled, 16), ir.PTR)
VT = {"f": "N3sol4math6VectorIfEE", "j": "N3sol4math6VectorIjEE", "c": "N3sol4math6VectorIcEE", "s": "N3sol4math7SVectorIfEE"}
def mk_svec(E, st, name, case="buf", r=None, off=0, inner="buf"):
    if r is None: r = E.new_struct(st, name, 32)
    d = dict(st.mem[r]); d[off] = vptr(VT["s"])
    if case == "null":
        for o in (8, 16, 24): d[off + o] = (NULL, ir.PTR)
        st.mem[r] = d
        return Ptr(r, Off(off))
    ip = mk_vec(E, st, name + ".idx", ir.I32, inner); vp = mk_vec(E, st, name + ".val", ir.F32, inner)
    for q, t in ((ip, "j"), (vp, "f")):
        q.r.heap = True
        dd = dict(st.mem[q.r]); dd[0] = vptr(VT[t]); st.mem[q.r] = dd
    c = E.new_struct(st, name + ".count", 4); c.heap = True
    st.mem[c] = {0: (z3.BitVec(E.name(name + ".scount"), 32), ir.I32)}
    d[off + 8] = (ip, ir.PTR); d[off + 16] = (vp, ir.PTR); d[off + 24] = (Ptr(c), ir.PTR)
    st.mem[r] = d
    return Ptr(r, Off(off))
