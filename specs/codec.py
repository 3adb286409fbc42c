"""C01: the index codec. Spec functions: len7(v) number of 7-bit groups of v, byte7(v,t) its t-th code byte,
start(A,i) position of element i's code in the encoding of the list A (recursively defined)."""
import z3
from irv import llvmir as ir
from irv.engine import *
from irv.contract import Contract
from irv.views import *
from specs.vec import VecResize, realloc_data, init_vec

NMAX = 1 << 34
def len7(v):
    r = bv(1)
    for g in range(1, 10): r = r + z3.If(z3.UGE(v, bv(1 << (7 * g))), bv(1), bv(0))
    return r
def byte7(v, t):
    """t: python int"""
    g = z3.Extract(7, 0, z3.LShR(v, 7 * t)) & bv(127, 8)
    if t == 9: return g
    more = z3.UGE(v, bv(1 << (7 * (t + 1))))
    return z3.If(more, g | bv(128, 8), g)
def has7(v, t): return TRUE if t == 0 else z3.UGE(v, bv(1 << (7 * t)))

L7 = z3.Function("L7", BV64, BV64); B7 = z3.Function("B7", BV64, BV64, z3.BitVecSort(8))
def def7(v):
    """definitions of L7 and B7 at v"""
    return [L7(v) == len7(v)] + [B7(v, bv(t)) == byte7(v, t) for t in range(10)]
def rng7(v): return [z3.ULE(1, L7(v)), z3.ULE(L7(v), 10)]

class Encode(Contract):
    title = "run_len_encode"; optional = True
    opts = {"unroll": 10, "no_merge": True, "timeout": 30000}
    def target(self, mod): return mod.find(r"^sol::pario::run_len_encode\(")
    def setup(self, E, st, case): return [mk_vec(E, st, "codes", ir.I8), z3.BitVec("v", 64)]
    def bind(self, E, st, a):
        c = Vec(E, st, a[0], ir.I8)
        if not c.init: raise ShapeMismatch("uninitialised vector")
        return {"c": c, "cp": a[0], "v": E.toint(a[1])}
    def pre(self, E, st, e): return e["c"].wf() + [("codes size", z3.ULT(e["c"].size, bv((1 << 38) - 16)))]
    def modifies(self, E, st, e):
        c = e["c"]; return {c.sp.r, c.hp.r, c.dr}
    def havoc(self, E, st, e, rt): Comp.havoc(self, E, st, e, rt)
    def post(self, E, old, st, e, ret):
        w = Vec(E, st, e["cp"], ir.I8); c = e["c"]; v = e["v"]
        if E.spec is self:
            for f in def7(v): st.assume(f)
        return [("codes: " + a, f) for a, f in w.wf()] + [("count", w.count == c.count), ("length", w.size == c.size + L7(v)), ("at most ten bytes", z3.And(*rng7(v))),
                ("earlier codes are kept", fa(1, lambda j: z3.Implies(z3.ULT(j, c.size), w.at(j) == c.at(j)), lambda j: w.at(j)))] + [
                ("byte %d" % t, z3.Implies(z3.ULT(t, L7(v)), w.at(c.size + t) == B7(v, bv(t)))) for t in range(10)]

class Decode(Contract):
    title = "run_len_decode"; optional = True
    opts = {"unroll": 10, "no_merge": True, "timeout": 30000}
    alternatives = ("null", "ok")
    def target(self, mod): return mod.find(r"^sol::pario::run_len_decode\(")
    def setup(self, E, st, case):
        r = E.new_array(st, "codes", ir.I8, z3.BitVec("ncodes", 64))
        i = E.new_struct(st, "i", 8); E.load(st, Ptr(i), ir.I64)
        return [Ptr(r, Off(0, ((1, z3.BitVec("p", 64)),))), Ptr(r, Off(0, ((1, z3.BitVec("end", 64)),))), Ptr(i)]
    def bind(self, E, st, a):
        if len(a) != 3 or not all(isinstance(x, Ptr) and x.r is not None for x in a) or a[0].r is not a[1].r or a[0].r.kind != "array" or a[0].r.elem.size != 1: raise ShapeMismatch("arguments of run_len_decode")
        return {"p": a[0], "i": a[2], "po": a[0].off.bytes(), "eo": a[1].off.bytes(), "arr": st.mem[a[0].r].a, "i0": E.load(st, a[2], ir.I64), "n": E.nelem(st, a[0])}
    def pre(self, E, st, e):
        return [("inside the codes", z3.And(z3.ULE(e["po"], e["eo"]), z3.ULE(e["eo"], e["n"]), z3.ULT(e["n"], bv(LIM)))), ("starts from 0", e["i0"] == 0)]
    def modifies(self, E, st, e): return {e["i"].r}
    def havoc(self, E, st, e, rt):
        E.store(st, e["i"], z3.BitVec(E.name("dec"), 64), ir.I64)
        if e["alt"] == "null": return NULL
        return Ptr(e["p"].r, Off(0, ((1, z3.BitVec(E.name("pdec"), 64)),)))
    def post(self, E, old, st, e, ret):
        if E.spec is self: vs = [z3.BitVec("any_v", 64)]
        else: vs = E.spec.ghost_values(E) if hasattr(E.spec, "ghost_values") else []
        if E.spec is self:
            for f in def7(vs[0]): st.assume(f)
        i1 = E.load(st, e["i"], ir.I64); arr = e["arr"]; po, eo = e["po"], e["eo"]
        out = []
        null = isinstance(ret, Ptr) and ret.r is None
        if not null and (not isinstance(ret, Ptr) or ret.r is not e["p"].r): return [("result points into the codes", FALSE)]
        def enc(v): return z3.And(z3.ULE(L7(v), eo - po), *[z3.Implies(z3.ULT(t, L7(v)), z3.Select(arr, po + t) == B7(v, bv(t))) for t in range(10)])
        if null:
            out += [("refuses only what is not an encoded number", z3.Not(enc(v))) for v in vs]
            return out
        q = ret.off.bytes()
        out += [("consumes one to ten bytes inside the codes", z3.And(z3.ULT(po, q), z3.ULE(q, eo), z3.ULE(q - po, 10))), ("ends on a final byte", z3.Select(arr, q - 1) & bv(128, 8) == 0)]
        out += [("decodes an encoded number", z3.Implies(enc(v), z3.And(i1 == v, q == po + L7(v)))) for v in vs]
        return out

class Codec(Contract):
    opts = {"unroll_inner": 10, "cand_timeout": 40000, "timeout": 30000, "no_merge": True}
    def __init__(self, t):
        self.t = t; self.ty = TY[t]; self.title = self.title % {"t": "uint16", "j": "uint32", "m": "uint64"}[t]
        self.AS = z3.ArraySort(BV64, z3.BitVecSort(self.ty.n))
        self.start = z3.Function("start_" + t, self.AS, BV64, BV64)
        self.dlen = z3.Function("dlen_" + t, self.AS, BV64, BV64)      # length of the code of element i
        self.eb = z3.Function("eb_" + t, self.AS, BV64, z3.BitVecSort(8))      # j-th byte of the encoding of the whole list
    def x(self, A, i): 
        v = z3.Select(A, i)
        return v if self.ty.n == 64 else z3.ZeroExt(64 - self.ty.n, v)
    def prev(self, A, i): return z3.If(i == 0, bv(0), self.x(A, i - 1))
    def d(self, A, i): return self.x(A, i) - self.prev(A, i)
    def sorted_at(self, A, n, i): return z3.Implies(z3.And(z3.ULE(1, i), z3.ULT(i, n)), z3.ULE(self.x(A, i - 1), self.x(A, i)))
    inlined = False
    def setmod(self, mod): self.inlined = mod.find(r"^sol::pario::run_len_encode\(") is None or mod.find(r"^sol::pario::run_len_decode\(") is None
    def defs(self, A, i):
        """unfolding of the definitions of start, dlen and the encoding EB at element i"""
        v = self.d(A, i)
        return [self.start(A, bv(0)) == 0, self.start(A, i + 1) == self.start(A, i) + self.dlen(A, i), self.dlen(A, i) == L7(v)] + rng7(v) + (def7(v) if self.inlined else []) + [
                z3.Implies(z3.ULT(t, L7(v)), self.eb(A, self.start(A, i) + t) == B7(v, bv(t))) for t in range(10)]
    def encoded(self, arr, A, base, k):
        """the first k elements of A are encoded in arr from base"""
        q, j = z3.BitVec("qi", 64), z3.BitVec("qj", 64)
        return [("codes of all elements", z3.ForAll([j], z3.Implies(z3.ULT(j, self.start(A, k)), z3.Select(arr, base + j) == self.eb(A, j)), patterns=[self.eb(A, j)])),
                ("start positions increase", z3.ForAll([q], z3.Implies(z3.ULT(q, k), z3.And(z3.ULE(self.start(A, q), self.start(A, k)), z3.ULE(1, self.dlen(A, q)), z3.ULE(self.dlen(A, q), 10), z3.ULE(self.start(A, q) + self.dlen(A, q), self.start(A, k)))), patterns=[self.dlen(A, q)])),
                ("ten bytes at most per index", z3.ULE(self.start(A, k), 10 * k))]

class Comp(Codec):
    title = "comp_index<%s>"
    def target(self, mod): return "v_comp_" + self.t
    def setup(self, E, st, case):
        return [mk_vec(E, st, "indexes", self.ty), mk_vec(E, st, "codes", ir.I8)]
    def bind(self, E, st, a):
        x = Vec(E, st, a[0], self.ty); c = Vec(E, st, a[1], ir.I8)
        if not x.init or not c.init: raise ShapeMismatch("uninitialised vector")
        return {"x": x, "c": c, "cp": a[1], "A": x.arr}
    def pre(self, E, st, e):
        n = e["x"].size
        q = z3.BitVec("qs", 64)
        return [("indexes " + a, f) for a, f in e["x"].wf()] + [("codes " + a, f) for a, f in e["c"].wf()] + [
            ("number of indexes", z3.ULT(n, bv(NMAX))), ("codes size", z3.ULT(e["c"].size, bv(1 << 36))),
            ("indexes non-decreasing", z3.ForAll([q], self.sorted_at(e["A"], n, q), patterns=[self.start(e["A"], q)]))]
    def modifies(self, E, st, e):
        c = e["c"]; return {c.sp.r, c.hp.r, c.dr}
    def havoc(self, E, st, e, rt):
        v = e["c"]; cap = z3.BitVec(E.name("cap"), 64)
        realloc_data(E, st, v, ir.I8, cap)
        E.store(st, v.hp.at(0), z3.BitVec(E.name("rows"), 64), ir.I64); E.store(st, v.hp.at(8), z3.BitVec(E.name("size"), 64), ir.I64)
    def post(self, E, old, st, e, ret):
        w = Vec(E, st, e["cp"], ir.I8); v = e["c"]; n = e["x"].size; A = e["A"]
        return [("codes: " + a, f) for a, f in w.wf()] + [("earlier codes are kept", fa(1, lambda j: z3.Implies(z3.ULT(j, v.size), w.at(j) == v.at(j)), lambda j: w.at(j))),
                ("code length", w.size == v.size + self.start(A, n))] + self.encoded(w.arr, A, v.size, n)
    def loop(self, L):
        E = L.engine; e = E.env; A = e["A"]; v = e["c"]; k = L.k; n = e["x"].size
        w = Vec(E, L.head, e["cp"], ir.I8)
        out = [("ghost", f) for f in self.defs(A, k)] + [("ghost", self.sorted_at(A, n, k))]
        out += [f for _, f in w.wf()] + [w.count == v.count, z3.ULE(k, n), w.size == v.size + self.start(A, k),
                fa(1, lambda j: z3.Implies(z3.ULT(j, v.size), w.at(j) == v.at(j)), lambda j: w.at(j))] + [f for _, f in self.encoded(w.arr, A, v.size, k)]
        for s, _ in L.accs:
            if z3.is_bv(s):
                p = self.prev(A, k)
                if s.size() == self.ty.n: out.append(s == (p if s.size() == 64 else z3.Extract(s.size() - 1, 0, p)))
                if s.size() > self.ty.n: out.append(s == (p if s.size() == 64 else z3.Extract(s.size() - 1, 0, p)))
        return out

class Decomp(Codec):
    """decoding the encoding of A[0..n) yields A"""
    title = "decomp_index<%s> of an encoded list"
    def target(self, mod): return "v_decomp_" + self.t
    def setup(self, E, st, case):
        E.ghost_x = (z3.Const("Ax", self.AS), z3.BitVec("nx", 64))
        return [mk_vec(E, st, "codes", ir.I8), mk_vec(E, st, "indexes", self.ty)]
    def bind(self, E, st, a):
        c = Vec(E, st, a[0], ir.I8); y = Vec(E, st, a[1], self.ty)
        if not y.init or not c.init: raise ShapeMismatch("uninitialised vector")
        return {"c": c, "y": y, "yp": a[1], "cp": a[0], "A": E.ghost_x[0], "n": E.ghost_x[1]}
    def pre(self, E, st, e):
        A, n = e["A"], e["n"]
        q = z3.BitVec("qs", 64)
        return [("codes " + a, f) for a, f in e["c"].wf()] + [("indexes " + a, f) for a, f in e["y"].wf()] + [("n bounded", z3.ULT(n, bv(NMAX))),
                ("length", e["c"].size == self.start(A, n))] + self.encoded(e["c"].arr, A, bv(0), n)
    def modifies(self, E, st, e):
        y = e["y"]; return {y.sp.r, y.hp.r, y.dr}
    def havoc(self, E, st, e, rt):
        v = e["y"]; cap = z3.BitVec(E.name("cap"), 64)
        realloc_data(E, st, v, self.ty, cap)
        E.store(st, v.hp.at(0), z3.BitVec(E.name("rows"), 64), ir.I64); E.store(st, v.hp.at(8), z3.BitVec(E.name("size"), 64), ir.I64)
        return z3.BitVec(E.name("status"), 32)
    def post(self, E, old, st, e, ret):
        w = Vec(E, st, e["yp"], self.ty); A, n = e["A"], e["n"]
        return [("accepted", ret == 0), ("number of indexes", w.size == n)] + [("indexes: " + a, f) for a, f in w.wf()] + [
                ("every index is restored", fa(1, lambda j: z3.Implies(z3.ULT(j, n), w.at(j) == z3.Select(A, j)), lambda j: w.at(j)))]
    def loop(self, L):
        E = L.engine; e = E.env; A, n = e["A"], e["n"]; k = L.k; self.gk = k
        w = Vec(E, L.head, e["yp"], self.ty)
        out = [("ghost", f) for f in self.defs(A, k) + self.defs(A, n)]
        out += [f for _, f in w.wf()] + [w.count == e["y"].count, z3.ULE(k, n), w.size == k,
                fa(1, lambda j: z3.Implies(z3.ULT(j, k), w.at(j) == z3.Select(A, j)), lambda j: w.at(j))]
        for s, _ in L.accs:
            if z3.is_bv(s) and s.size() == 64:
                out += [s == self.start(A, k), s == self.prev(A, k)]
        return out

    def ghost_values(self, E): return [self.d(E.env["A"], self.gk)] if getattr(self, "gk", None) is not None else []

class DecompAny(Decomp):
    """any byte string: nothing outside the codes is read, codes unchanged, cut-off numbers refused"""
    title = "decomp_index<%s> of arbitrary bytes"
    def ghost_values(self, E): return []
    def target(self, mod): return "v_decomp_any_" + self.t
    def pre(self, E, st, e):
        return [("codes " + a, f) for a, f in e["c"].wf()] + [("indexes " + a, f) for a, f in e["y"].wf()] + [("code length bounded", z3.ULT(e["c"].size, bv(1 << 36)))]
    def post(self, E, old, st, e, ret):
        w = Vec(E, st, e["yp"], self.ty); c = e["c"]
        return [("a status is returned", z3.Or(ret == 0, ret == 5)), ("at most one index per byte", z3.ULE(w.size, c.size)),
                ("codes ending inside a number are refused", z3.Implies(z3.And(c.size != 0, c.at(c.size - 1) & bv(128, 8) != 0), ret == 5))] + [("indexes: " + a, f) for a, f in w.wf()]
    def loop(self, L):
        E = L.engine; e = E.env; k = L.k; c = e["c"]
        w = Vec(E, L.head, e["yp"], self.ty)
        out = [f for _, f in w.wf()] + [w.count == e["y"].count, w.size == k]
        for s, _ in L.accs:
            if z3.is_bv(s) and s.size() == 64:
                out += [z3.ULE(s, c.size), z3.ULE(k, s), z3.ULT(k, bv(1 << 36)), z3.Or(s == 0, c.at(s - 1) & bv(128, 8) == 0)]
        return out

class RoundTrip(Codec):
    title = "round trip<%s>"
    def target(self, mod): return "v_roundtrip_" + self.t
    def setup(self, E, st, case):
        return [mk_vec(E, st, "x", self.ty), mk_vec(E, st, "codes", ir.I8), mk_vec(E, st, "y", self.ty)]
    def bind(self, E, st, a):
        x = Vec(E, st, a[0], self.ty); c = Vec(E, st, a[1], ir.I8); y = Vec(E, st, a[2], self.ty)
        E.ghost_x = (x.arr, x.size)
        return {"x": x, "c": c, "y": y, "yp": a[2], "cp": a[1]}
    def pre(self, E, st, e):
        n = e["x"].size; A = e["x"].arr
        q = z3.BitVec("qs", 64)
        return [("%s %s" % (m, a), f) for m in "xcy" for a, f in e[m].wf()] + [("number of indexes", z3.ULT(n, bv(NMAX))),
                ("non-decreasing", z3.ForAll([q], self.sorted_at(A, n, q), patterns=[self.start(A, q)]))]
    def modifies(self, E, st, e):
        return {e[m].__getattribute__(f).r for m in "cy" for f in ("sp", "hp", "dp")}
    def post(self, E, old, st, e, ret):
        w = Vec(E, st, e["yp"], self.ty); x = e["x"]; c = Vec(E, st, e["cp"], ir.I8)
        return [("accepted", ret == 0), ("same length", w.size == x.size), ("ten bytes per index at most", z3.ULE(c.size, 10 * x.size)),
                ("same list", fa(1, lambda j: z3.Implies(z3.ULT(j, x.size), w.at(j) == x.at(j)), lambda j: w.at(j)))]
