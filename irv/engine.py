"""irv: function-by-function verification-condition generation from LLVM IR.

One Engine verifies one function against one contract: symbolic execution over an explicit
region memory, loops cut by invariants (checked for entry and preservation), calls to functions
under contract replaced by their contracts.  Everything that must hold becomes an Obligation."""
import itertools, time, z3
from . import llvmir as ir

BV64 = z3.BitVecSort(64)
def bv(x, n=64): return z3.BitVecVal(x, n)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

class Unsupported(Exception): pass
class ShapeMismatch(Exception): pass

def simp(e): return z3.simplify(e)
def is_true(e): return z3.is_true(e)
def conj(l):
    l = [x for x in l if not z3.is_true(x)]
    if not l: return TRUE
    return l[0] if len(l) == 1 else z3.And(*l)
def has_quant(e, _c={}):
    i = e.get_id()
    r = _c.get(i)
    if r is not None and r[1].eq(e): return r[0]
    st = [e]; seen = set(); res = False
    while st:
        x = st.pop()
        if z3.is_quantifier(x): res = True; break
        if x.get_id() in seen: continue
        seen.add(x.get_id()); st.extend(x.children())
    _c[i] = (res, e)
    return res
def consts_of(e):
    out = {}; st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x) and x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[x.decl().name()] = x
        st.extend(x.children())
    return out

# ---------------------------------------------------------------- floats
def big_ite(x, lim=6):
    n = 0; q = [x]
    while q:
        y = q.pop()
        if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_ITE:
            n += 1; q += y.children()[1:]
            if n > lim: return True
    return False
class FloatUF:
    """Floats as uninterpreted values; arithmetic as uninterpreted functions (commutative where IEEE is)."""
    mode = "uf"
    S = {4: z3.DeclareSort("F32"), 8: z3.DeclareSort("F64")}
    fns = {}
    axioms = []
    @classmethod
    def fn(c, name, *sorts):
        k = (name,) + tuple(s.name() for s in sorts)
        if k not in c.fns: c.fns[k] = z3.Function("_".join(k[:2] + k[2:][-1:]), *sorts)
        return c.fns[k]
    @classmethod
    def sort(c, size): return c.S[size]
    @classmethod
    def const(c, x, size):
        import struct
        h = struct.pack("<f" if size == 4 else "<d", x).hex()
        c.vals["fc%d_%s" % (size, h)] = (x, size)
        return z3.Const("fc%d_%s" % (size, h), c.S[size])
    vals = {}
    @classmethod
    def isval(c, a): return z3.is_app(a) and a.num_args() == 0 and a.decl().name() in c.vals
    @classmethod
    def isneg(c, a): return z3.is_app(a) and a.num_args() == 1 and a.decl().name().startswith("fneg_")
    @classmethod
    def neg(c, a):
        """-a; minus signs are kept outermost in products and cancel (exact in IEEE)"""
        if a.num_args() == 0 and a.decl().name() in c.vals:
            x, n = c.vals[a.decl().name()]
            return c.const(-x, n)
        if c.isneg(a): return a.arg(0)
        return c.fn("fneg", a.sort(), a.sort())(a)
    @classmethod
    def bin(c, op, a, b):
        s = a.sort()
        if op == "fsub": op = "fadd"; b = c.neg(b)          # a - b is a + (-b)
        if op in ("fadd", "fmul") and c.isval(a) and not c.isval(b): a, b = b, a      # constants second
        if op in ("fmul", "fdiv"):
            sg = False
            if c.isneg(a): a = a.arg(0); sg = not sg
            if c.isneg(b): b = b.arg(0); sg = not sg
            r = c.fn(op, s, s, s)(a, b)
            return c.neg(r) if sg else r
        f = c.fn(op, s, s, s)
        return f(a, b)
    @classmethod
    def comm_axioms(c):
        out = []
        for s in c.S.values():
            x, y = z3.Const("fx", s), z3.Const("fy", s)
            for op in ("fadd", "fmul", "feq"):
                r = s if op != "feq" else z3.BoolSort()
                f = c.fn(op, s, s, r)
                out.append(z3.ForAll([x, y], f(x, y) == f(y, x), patterns=[f(x, y)]))
        return out
    @classmethod
    def un(c, op, a, rs=None):
        if op == "fneg": return c.neg(a)
        return c.fn(op, a.sort(), rs or a.sort())(a)
    @classmethod
    def cmp(c, pred, a, b):
        for x, y, f in ((a, b, lambda t: c.cmp(pred, t, b)), (b, a, lambda t: c.cmp(pred, a, t))):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and not big_ite(x): return z3.If(x.arg(0), f(x.arg(1)), f(x.arg(2)))
        s = a.sort(); B = z3.BoolSort()
        lt = c.fn("flt", s, s, B); le = c.fn("fle", s, s, B); eq = c.fn("feq", s, s, B); un = c.fn("funo", s, s, B)
        return {"oeq": lambda: eq(a, b), "une": lambda: z3.Not(eq(a, b)), "olt": lambda: lt(a, b), "ogt": lambda: lt(b, a),
                "ole": lambda: le(a, b), "oge": lambda: le(b, a), "ult": lambda: z3.Not(le(b, a)), "ugt": lambda: z3.Not(le(a, b)),
                "ule": lambda: z3.Not(lt(b, a)), "uge": lambda: z3.Not(lt(a, b)), "one": lambda: z3.Or(lt(a, b), lt(b, a)),
                "ueq": lambda: z3.Not(z3.Or(lt(a, b), lt(b, a))), "uno": lambda: un(a, b), "ord": lambda: z3.Not(un(a, b)),
                "true": lambda: TRUE, "false": lambda: FALSE}[pred]()
    @classmethod
    def conv(c, op, a, rsort):
        return c.fn(op, a.sort(), rsort)(a)
    @classmethod
    def from_bits(c, b):
        return c.fn("frombits", b.sort(), c.S[b.size() // 8])(b)
    @classmethod
    def to_bits(c, f, n):
        return c.fn("tobits", f.sort(), z3.BitVecSort(n))(f)

class FloatIEEE:
    mode = "ieee"
    S = {4: z3.Float32(), 8: z3.Float64()}
    RM = z3.RNE()
    @classmethod
    def sort(c, size): return c.S[size]
    @classmethod
    def const(c, x, size): return z3.FPVal(x, c.S[size])
    @classmethod
    def bin(c, op, a, b):
        return {"fadd": lambda: z3.fpAdd(c.RM, a, b), "fsub": lambda: z3.fpSub(c.RM, a, b), "fmul": lambda: z3.fpMul(c.RM, a, b),
                "fdiv": lambda: z3.fpDiv(c.RM, a, b), "frem": lambda: z3.fpRem(a, b)}[op]()
    @classmethod
    def comm_axioms(c): return []
    @classmethod
    def un(c, op, a, rs=None):
        if op == "fneg": return z3.fpNeg(a)
        if op == "fabs": return z3.fpAbs(a)
        if op == "sqrt": return z3.fpSqrt(c.RM, a)
        f = z3.Function("u_%s_%d" % (op, a.sort().sbits()), a.sort(), rs or a.sort())
        return f(a)
    @classmethod
    def cmp(c, pred, a, b):
        nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        return {"oeq": lambda: z3.fpEQ(a, b), "une": lambda: z3.Not(z3.fpEQ(a, b)), "olt": lambda: z3.fpLT(a, b), "ogt": lambda: z3.fpGT(a, b),
                "ole": lambda: z3.fpLEQ(a, b), "oge": lambda: z3.fpGEQ(a, b), "ult": lambda: z3.Not(z3.fpGEQ(a, b)), "ugt": lambda: z3.Not(z3.fpLEQ(a, b)),
                "ule": lambda: z3.Not(z3.fpGT(a, b)), "uge": lambda: z3.Not(z3.fpLT(a, b)), "one": lambda: z3.And(z3.Not(nan), z3.Not(z3.fpEQ(a, b))),
                "ueq": lambda: z3.Or(nan, z3.fpEQ(a, b)), "uno": lambda: nan, "ord": lambda: z3.Not(nan), "true": lambda: TRUE, "false": lambda: FALSE}[pred]()
    @classmethod
    def conv(c, op, a, rs):
        if op in ("fptrunc", "fpext"): return z3.fpToFP(c.RM, a, rs)
        if op == "sitofp": return z3.fpSignedToFP(c.RM, a, rs)
        if op == "uitofp": return z3.fpUnsignedToFP(c.RM, a, rs)
        if op == "fptosi": return z3.fpToSBV(z3.RTZ(), a, rs)
        if op == "fptoui": return z3.fpToUBV(z3.RTZ(), a, rs)
        raise Unsupported(op)
    @classmethod
    def from_bits(c, b): return z3.fpBVToFP(b, c.S[b.size() // 8])
    @classmethod
    def to_bits(c, f, n): return z3.fpToIEEEBV(f)

# ---------------------------------------------------------------- memory
class Region:
    _n = itertools.count()
    def __init__(s, name, kind, elem=None, size=None, keys=0, stride=0):
        s.id = next(Region._n); s.name = name; s.kind = kind; s.elem = elem; s.size = size; s.keys = keys; s.stride = stride
        s.ptr_fn = None; s.local = False; s.heap = False; s.tag = None; s.const = False
    def __repr__(s): return "R(%s)" % s.name

class ArrC:
    """contents of an array region: z3 array term and number of elements (bv64, or array key->bv64)"""
    __slots__ = ("a", "n")
    def __init__(s, a, n): s.a = a; s.n = n

class PtrFam:
    """pointer cell of a keyed struct: at key c it points to offset 0 of region `r` at key c"""
    def __init__(s, r): s.r = r
    def __eq__(s, o): return isinstance(o, PtrFam) and o.r is s.r
    def __hash__(s): return hash(s.r)

SREM = z3.Function("srem32", z3.BitVecSort(32), z3.BitVecSort(32), z3.BitVecSort(32))
class Off:
    __slots__ = ("c", "t")
    def __init__(s, c=0, t=()): s.c = c; s.t = t      # t: tuple of (scale, expr)
    def add(s, o):
        d = {}
        for sc, e in s.t + o.t:
            k = e.get_id()
            d[k] = (d[k][0] + sc if k in d else sc, e)
        c = s.c + o.c
        if c >= 1 << 63: c -= 1 << 64
        return Off(c, tuple(v for v in d.values() if v[0]))
    def neg(s): return Off(-s.c, tuple((-a, e) for a, e in s.t))
    def scale(s, m): return Off(s.c * m, tuple((a * m, e) for a, e in s.t))
    def conc(s): return not s.t
    def divisible(s, k): return s.c % k == 0 and all(a % k == 0 for a, _ in s.t)
    def div(s, k):
        r = bv(s.c // k) if (s.c or not s.t) else None
        for a, e in s.t:
            a //= k
            x = e if a == 1 else (e * bv(a))
            r = x if r is None else r + x
        return simp(r) if len(s.t) > 1 or r is None else r
    def bytes(s): return s.div(1)
def lin(e, scale):
    """offset form of scale*e, splitting off numerals"""
    if z3.is_bv_value(e):
        v = e.as_signed_long(); return Off(v * scale)
    if e.decl().kind() == z3.Z3_OP_BADD:
        r = Off()
        for x in e.children(): r = r.add(lin(x, scale))
        return r
    if e.decl().kind() == z3.Z3_OP_BMUL and e.num_args() == 2 and z3.is_bv_value(e.arg(0)):
        return lin(e.arg(1), scale * e.arg(0).as_signed_long())
    if e.decl().kind() == z3.Z3_OP_BSUB and e.num_args() == 2:
        return lin(e.arg(0), scale).add(lin(e.arg(1), -scale))
    return Off(0, ((scale, e),))

class Ptr:
    __slots__ = ("r", "off", "key")
    def __init__(s, r, off=None, key=None): s.r = r; s.off = off or Off(); s.key = key
    def at(s, nbytes): return Ptr(s.r, s.off.add(Off(nbytes)), s.key)
    def __repr__(s): return "Ptr(%s,%s,%s)" % (s.r, s.off.bytes(), s.key)
NULL = Ptr(None)
class PtrU:
    """one of several pointers"""
    def __init__(s, alts): s.alts = alts   # [(cond, Ptr)]
class PInt:
    """integer made from pointers: sum of coef*address(region) + off"""
    def __init__(s, base, off): s.base = base; s.off = off
class FuncPtr:
    def __init__(s, name): s.name = name
class VTab:
    """pointer into a vtable"""
    def __init__(s, cls, off=0): s.cls = cls; s.off = off
class VSlot:
    def __init__(s, cls, off): s.cls = cls; s.off = off

def same_val(a, b):
    if a is b: return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.r is not b.r: return False
        if (a.key is None) != (b.key is None): return False
        if a.key is not None and not a.key.eq(b.key): return False
        return a.off.c == b.off.c and len(a.off.t) == len(b.off.t) and all(x[0] == y[0] and x[1].eq(y[1]) for x, y in zip(a.off.t, b.off.t))
    if isinstance(a, PtrFam): return a == b
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, VTab) and isinstance(b, VTab): return a.cls == b.cls and a.off == b.off
    if isinstance(a, FuncPtr) and isinstance(b, FuncPtr): return a.name == b.name
    return False

class State:
    __slots__ = ("pc", "env", "mem", "freed", "ghost", "trace")
    def __init__(s):
        s.pc = []; s.env = {}; s.mem = {}; s.freed = frozenset(); s.ghost = {}; s.trace = ()
    def copy(s):
        n = State(); n.pc = list(s.pc); n.env = dict(s.env); n.mem = dict(s.mem); n.freed = s.freed; n.ghost = dict(s.ghost); n.trace = s.trace
        return n
    def assume(s, f):
        if isinstance(f, bool): f = z3.BoolVal(f)
        if z3.is_true(f): return
        if z3.is_and(f):
            for x in f.children(): s.assume(x)
            return
        s.pc.append(f)

class Obligation:
    def __init__(s, name, pc, goal, line, kind, defs): s.name = name; s.pc = pc; s.goal = goal; s.line = line; s.kind = kind; s.defs = defs; s.result = None; s.t = 0; s.backend = None; s.model = None

class Outcome:
    def __init__(s, kind, st, **kw): s.kind = kind; s.st = st; s.__dict__.update(kw)

# ---------------------------------------------------------------- CFG helpers
def rpo(fn):
    seen = set(); order = []
    st = [(fn.blocks[0], iter(fn.blocks[0].succs))]; seen.add(fn.blocks[0])
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(s.succs))); break
        else:
            order.append(b); st.pop()
    order.reverse()
    return order
def analyse(fn):
    if hasattr(fn, "rpo"): return
    order = rpo(fn); idx = {b: i for i, b in enumerate(order)}
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in b.preds:
                if p in idom:
                    if new is None: new = p
                    else:
                        x, y = p, new
                        while x is not y:
                            while idx[x] > idx[y]: x = idom[x]
                            while idx[y] > idx[x]: y = idom[y]
                        new = x
            if idom.get(b) is not new: idom[b] = new; ch = True
    def dom(a, b):
        while True:
            if a is b: return True
            if b is order[0]: return False
            b = idom[b]
    loops = {}
    for b in order:
        for s in b.succs:
            if dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st.extend(p for p in x.preds if p in idx)
            elif idx[s] <= idx[b]: raise Unsupported("irreducible control flow")
    # blocks that cannot reach a return
    ok = set(); st = [b for b in order if b.insts and b.insts[-1][1].op == "ret"]
    while st:
        x = st.pop()
        if x in ok: continue
        ok.add(x); st.extend(p for p in x.preds if p in idx)
    fn.doomed = {}
    for b in order:
        if b not in ok:
            kind = "loop"
            q = [b]; seen = set()
            while q:
                x = q.pop()
                if x in seen: continue
                seen.add(x); q.extend(x.succs)
                for _, i in x.insts:
                    if i.op in ("call", "invoke") and i.attr["callee"].kind == "func":
                        n = i.attr["callee"].name
                        if n in ("__cxa_throw", "__cxa_rethrow") or n.startswith("_ZSt") and "__throw" in n: kind = "throw"
                        elif n in ("__assert_fail", "abort", "exit", "_ZSt9terminatev", "__clang_call_terminate") and kind == "loop": kind = "abort:" + n
                    if i.op == "unreachable" and kind == "loop": kind = "unreachable"
            fn.doomed[b] = kind
    # only treat as doomed when it ends by throw/abort/unreachable; plain infinite loops stay
    fn.doomed = {b: k for b, k in fn.doomed.items() if k != "loop"}
    fn.rpo = order; fn.idx = idx; fn.loops = loops; fn.idom = idom

_dead_cache = {}

VERDICT = {"unsat": "proved", "sat": "refuted", "unknown": "unknown"}
MAXALLOC = 1 << 47

class Loop:
    """what a contract sees of a loop when it is asked for invariant candidates"""
    pass

class Engine:
    def __init__(self, mod, reg, floats=FloatUF, spec=None, opts=None):
        self.mod = mod; self.reg = reg; self.F = floats; self.spec = spec; self.opts = opts or {}
        self.obls = []; self.probe = 0; self.cnt = itertools.count()
        self.defs = list(floats.comm_axioms()); self.arrdef = {}
        self.writes = None
        self.inverses = []          # (predicate: term -> arg or None, func)
        self.greg = {}
        self.branch_atoms = None
        self.depth = 0; self.kstack = []
        self.log = []; self.assumed = set(); self.used_contracts = set(); self.inlined = set()
        self.n_inv = 0; self.loops_done = 0; self.deadline = None
        self.solver_time = 0.0; self.nquery = 0
        self.cands_extra = []

    # ------------------------------------------------------------ symbols
    def name(self, s): return "%s!%d" % (s, next(self.cnt))
    def sort(self, ty):
        if ty.k == "int": return z3.BoolSort() if ty.n == 1 else z3.BitVecSort(ty.n)
        if ty.k in ("float", "double"): return self.F.sort(ty.size)
        raise Unsupported("sort of %r" % ty)
    def fresh(self, ty, name="v"):
        if ty.k == "ptr": return Ptr(Region(self.name(name), "opaque"))
        if ty.k == "struct": return tuple(self.fresh(t, name) for t in ty.el)
        if ty.k == "array": return tuple(self.fresh(ty.el, name) for _ in range(ty.n))
        return z3.Const(self.name(name), self.sort(ty))
    def zero(self, ty):
        if ty.k == "int": return FALSE if ty.n == 1 else bv(0, ty.n)
        if ty.k == "ptr": return NULL
        if ty.k in ("float", "double"): return self.F.const(0.0, ty.size)
        if ty.k == "struct": return tuple(self.zero(t) for t in ty.el)
        if ty.k == "array": return tuple(self.zero(ty.el) for _ in range(ty.n))
        raise Unsupported("zero of %r" % ty)
    def arrsort(self, ty, keys=0):
        return z3.ArraySort(*([BV64] * (keys + 1) + [self.sort(ty)]))

    # ------------------------------------------------------------ proving
    def prove(self, pc, goal, timeout=None, want_model=False, nodefs=False):
        g = simp(goal) if not isinstance(goal, bool) else z3.BoolVal(goal)
        if z3.is_true(g): return "proved", None
        t0 = time.time(); self.nquery += 1
        base = [] if nodefs else self.defs
        fs = list(base) + list(pc) + [z3.Not(goal)]
        r, m = solve(fs, timeout or self.opts.get("timeout", 6000))
        self.solver_time += time.time() - t0
        return VERDICT[repr(r)], m
    def feasible(self, st, cond):
        c = simp(cond)
        if z3.is_false(c): return False
        if z3.is_true(c): return True
        fs = [f for f in st.pc if not has_quant(f)] + [c]
        s = z3.Solver(); s.set("timeout", 300)
        t0 = time.time()
        s.add(*fs); r = s.check()
        self.solver_time += time.time() - t0
        return r != z3.unsat
    def oblige(self, st, goal, kind, desc, line=0, extra=None):
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        if not self.probe:
            pc = list(st.pc) + ([extra] if extra is not None else [])
            self.obls.append(Obligation("%s: %s" % (kind, desc), pc, goal, line, kind, len(self.defs)))
        g = simp(goal)
        if z3.is_true(g): return
        st.assume(goal if extra is None else z3.Implies(extra, goal))

    def def_array(self, name, ty, keys, fn, st=None):
        """fresh array constant defined pointwise (conservative extension)"""
        A = z3.Const(self.name(name), self.arrsort(ty, keys))
        js = [z3.BitVec("j%d_" % i, 64) for i in range(keys + 1)]
        e = fn(*js)
        self.arrdef[A.decl().name()] = (js, e)
        self.defs.append(z3.ForAll(js, z3.Select(A, *js) == e, patterns=[z3.Select(A, *js)]))
        return A
    def fresh_array(self, name, ty, keys=0):
        return z3.Const(self.name(name), self.arrsort(ty, keys))

    # ------------------------------------------------------------ regions
    def new_struct(self, st, name, size, keys=0, stride=0, local=False):
        r = Region(name, "struct", None, size, keys, stride); r.local = local
        st.mem[r] = {}
        return r
    def new_array(self, st, name, ty, n, keys=0, content=None):
        r = Region(name, "array", ty, None, keys)
        st.mem[r] = ArrC(content if content is not None else self.fresh_array(name, ty, keys), n)
        return r
    def note_write(self, r, what):
        if self.writes is not None: self.writes.add((r, what))

    def nelem(self, st, p):
        c = st.mem[p.r]
        return z3.Select(c.n, p.key) if p.r.keys else c.n
    def resolve_key(self, st, p, line, what):
        """(key, field offset) for struct regions; adds the bounds obligation for strided regions"""
        r = p.r
        if r.stride:
            off = p.off
            fo = off.c % r.stride
            base = Off(off.c - fo, off.t)
            if not base.divisible(r.stride): raise Unsupported("unaligned access in array of structs %s" % r)
            key = base.div(r.stride)
            if r.size is not None:
                self.oblige(st, z3.ULT(key, r.size), "bounds", "%s inside %s" % (what, r.name), line)
            return key, fo
        if not p.off.conc(): raise Unsupported("symbolic offset into struct %s" % r)
        return p.key, p.off.c

    def check_live(self, st, p, line, what):
        if p.r is None:
            self.oblige(st, FALSE, "null", "%s through a null pointer" % what, line); raise PathEnd()
        if p.r in st.freed:
            self.oblige(st, FALSE, "lifetime", "%s of released or reallocated memory %s" % (what, p.r.name), line); raise PathEnd()

    def load(self, st, p, ty, line=0):
        if isinstance(p, PtrU):
            res = None
            for c, q in reversed(p.alts):
                s2 = st.copy(); s2.assume(c)
                k = len(s2.pc)
                try: v = self.load(s2, q, ty, line)
                except PathEnd: continue
                for f in s2.pc[k:]: st.assume(z3.Implies(c, f))
                for rr, cc in s2.mem.items():
                    if rr in st.mem and st.mem[rr] is not cc and isinstance(cc, dict): st.mem[rr] = cc
                res = v if res is None else self.ite(c, v, res)
            if res is None: raise PathEnd()
            return res
        if isinstance(p, VTab):
            return self.vload(p)
        if not isinstance(p, Ptr): raise Unsupported("load through %r" % p)
        self.check_live(st, p, line, "read")
        r = p.r
        if isinstance(st.mem.get(r), tuple): r = self.retype(st, p, ty)
        if r.kind == "struct":
            key, fo = self.resolve_key(st, p, line, "read")
            return self.cell_get(st, r, key, fo, ty, line)
        if r.kind == "array":
            if r.ptr_fn is not None and ty.k == "ptr":
                i = p.off.div(8); self.oblige(st, z3.ULT(i, self.nelem(st, p)), "bounds", "read inside %s" % r.name, line)
                return r.ptr_fn(i)
            i = self.elem_index(st, p, ty, line, "read")
            c = st.mem[r]
            v = z3.Select(c.a, p.key, i) if r.keys else z3.Select(c.a, i)
            v = self.unfold_select(v)
            return self.coerce(v, r.elem, ty)
        raise Unsupported("load from %s region %s" % (r.kind, r.name))

    def unfold_select(self, v): return simp(v) if v.arg(0).decl().kind() == z3.Z3_OP_STORE else v

    def elem_index(self, st, p, ty, line, what):
        r = p.r; es = r.elem.size
        if ty.size != es or not p.off.divisible(es): raise Unsupported("access of %r at %s in array of %r (%s)" % (ty, p.off.bytes(), r.elem, r.name))
        i = p.off.div(es)
        self.oblige(st, z3.ULT(i, self.nelem(st, p)), "bounds", "%s inside %s" % (what, r.name), line)
        return i

    def coerce(self, v, fr, to):
        if tykey_eq(fr, to): return v
        if fr.k == "int" and to.k == "int" and fr.size == to.size:
            if to.n == 1: return v != 0 if not z3.is_bool(v) else v
            if z3.is_bool(v): return z3.If(v, bv(1, to.n), bv(0, to.n))
            return v
        if fr.k == "int" and to.k in ("float", "double") and fr.size == to.size: return self.F.from_bits(v)
        if to.k == "int" and fr.k in ("float", "double") and fr.size == to.size: return self.F.to_bits(v, to.n)
        raise Unsupported("reinterpretation of %r as %r" % (fr, to))

    def cell_get(self, st, r, key, fo, ty, line=0):
        cells = st.mem[r]
        c = cells.get(fo)
        if c is None:
            if r.size is not None and not r.stride and isinstance(r.size, int) and fo + ty.size > r.size:
                self.oblige(st, FALSE, "bounds", "read inside %s" % r.name, line); raise PathEnd()
            z = cells.get("zero")
            if z is not None and z[0] <= fo < z[1]: v = self.zero(ty); 
            elif r.keys or r.stride:
                if ty.k == "ptr": raise Unsupported("untracked pointer field %s+%d" % (r, fo))
                v = z3.Const(self.name("%s_%d" % (r.name, fo)), z3.ArraySort(BV64, self.sort(ty)))
            else:
                # overlapping narrower or wider cells?
                for o, (cv, ct) in [(o, x) for o, x in cells.items() if isinstance(o, int)]:
                    if o < fo + ty.size and fo < o + ct.size:
                        w = self.subread(cv, ct, fo - o, ty)
                        if w is not None: return w
                        raise Unsupported("overlapping access in %s at %d (%r) vs cell %d (%r)" % (r, fo, ty, o, ct))
                v = self.fresh(ty, "%s_%d" % (r.name, fo))
            d = dict(cells); d[fo] = (v, ty); st.mem[r] = d
            c = (v, ty)
        v, ct = c
        if r.keys or r.stride:
            if isinstance(v, PtrFam): return Ptr(v.r, Off(), key)
            if isinstance(v, z3.ExprRef) and z3.is_array(v): v = self.unfold_select(z3.Select(v, key))
        if isinstance(v, (Ptr, PtrU, FuncPtr, VTab, PInt)):
            if ty.k == "ptr" or (ty.k == "int" and ty.n == 64 and isinstance(v, PInt)): return v
            if ty.k == "int" and ty.n == 64 and isinstance(v, Ptr): return PInt({(v.r, None): 1}, v.off)
            raise Unsupported("pointer read as %r" % ty)
        if ty.k == "ptr":
            if z3.is_bv_value(v) and v.as_long() == 0: return NULL
            raise Unsupported("integer read as pointer in %s" % r)
        if isinstance(v, tuple): raise Unsupported("aggregate cell")
        if ct.size != ty.size:
            w = self.subread(v, ct, 0, ty)
            if w is not None: return w
            # a wider read over several narrower cells
            if ty.k == "int" and ct.k == "int" and ty.size > ct.size:
                parts = []; o = fo
                while o < fo + ty.size:
                    x = cells.get(o)
                    if x is None or x[1].k != "int": raise Unsupported("wide read in %s" % r)
                    parts.append(x[0]); o += x[1].size
                return z3.Concat(*reversed(parts))
            raise Unsupported("read of %r from cell %r in %s" % (ty, ct, r))
        return self.coerce(v, ct, ty)
    def subread(self, cv, ct, d, ty):
        if ct.k == "int" and ty.k == "int" and isinstance(cv, z3.BitVecRef) and d >= 0 and d + ty.size <= ct.size:
            x = z3.Extract(8 * (d + ty.size) - 1, 8 * d, cv)
            return x if ty.n != 1 else x != 0
        return None

    def store(self, st, p, v, ty, line=0):
        if isinstance(p, PtrU):
            for c, q in p.alts:
                s2 = st.copy(); s2.assume(c); k = len(s2.pc)
                try: self.store(s2, q, v, ty, line)
                except PathEnd: continue
                for f in s2.pc[k:]: st.assume(z3.Implies(c, f))
                st.mem[q.r] = self.merge_content(c, s2.mem[q.r], st.mem[q.r], q.r)
            return
        if not isinstance(p, Ptr): raise Unsupported("store through %r" % p)
        self.check_live(st, p, line, "write")
        r = p.r
        if isinstance(st.mem.get(r), tuple): r = self.retype(st, p, ty)
        if r.const:
            self.oblige(st, FALSE, "frame", "write to constant %s" % r.name, line)
        if r.kind == "struct":
            key, fo = self.resolve_key(st, p, line, "write")
            self.cell_set(st, r, key, fo, v, ty, line)
            return
        if r.kind == "array":
            i = self.elem_index(st, p, ty, line, "write")
            v = self.coerce(v, ty, r.elem)
            c = st.mem[r]
            a = z3.Store(c.a, p.key, i, v) if r.keys else z3.Store(c.a, i, v)
            st.mem[r] = ArrC(a, c.n); self.note_write(r, "a")
            return
        raise Unsupported("store to %s region %s" % (r.kind, r.name))
    def cell_set(self, st, r, key, fo, v, ty, line=0):
        if r.size is not None and not r.stride and isinstance(r.size, int) and fo + ty.size > r.size:
            self.oblige(st, FALSE, "bounds", "write inside %s" % r.name, line); raise PathEnd()
        d = dict(st.mem[r])
        if r.keys or r.stride:
            if isinstance(v, Ptr):
                old = d.get(fo)
                if old is None or not isinstance(old[0], PtrFam) or v.r is not old[0].r: raise Unsupported("pointer store into array of structs %s+%d" % (r, fo))
                return
            old = d.get(fo)
            if old is None:
                self.cell_get(st, r, key, fo, ty); d = dict(st.mem[r]); old = d[fo]
            d[fo] = (z3.Store(old[0], key, self.coerce(v, ty, old[1])), old[1])
        else:
            for o in [o for o in d if isinstance(o, int) and o != fo and o < fo + ty.size and fo < o + d[o][1].size]:
                ov, ot = d[o]
                if o >= fo and o + ot.size <= fo + ty.size: del d[o]
                elif ot.k == "int" and ty.k == "int" and isinstance(ov, z3.BitVecRef):
                    # split the old cell into bytes
                    del d[o]
                    for b in range(ot.size):
                        if not (fo <= o + b < fo + ty.size): d[o + b] = (z3.Extract(8 * b + 7, 8 * b, ov), ir.I8)
                else: raise Unsupported("overlapping store in %s" % r)
            d[fo] = (v, ty)
        st.mem[r] = d; self.note_write(r, fo)

    def retype(self, st, p, ty):
        """memory fresh from an allocator takes the type of its first access"""
        r = p.r
        if not isinstance(st.mem[r], tuple): return r
        size, pend = st.mem[r]
        if r.kind != "raw": ty = r.elem          # another path already chose the type of this allocation
        if r.kind == "struct" or (r.kind == "raw" and size.conc() and size.c <= 4096 and r.tag != "array"):
            r.kind = "struct"; r.size = size.c; d = {}
            for op in pend:
                if op[0] == "zero" : d["zero"] = (0, size.c)
            st.mem[r] = d
        else:
            if ty.k == "ptr": raise Unsupported("pointer array allocation %s" % r)
            r.kind = "array"; r.elem = ty
            if not size.divisible(ty.size): raise Unsupported("allocation size")
            zero = any(op[0] == "zero" for op in pend)
            a = z3.K(BV64, self.zero(ty)) if zero else self.fresh_array(r.name, ty)
            st.mem[r] = ArrC(a, size.div(ty.size))
        return r

    # ------------------------------------------------------------ values
    def ite(self, c, a, b):
        if same_val(a, b): return a
        if z3.is_true(c): return a
        if z3.is_false(c): return b
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return z3.If(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple): return tuple(self.ite(c, x, y) for x, y in zip(a, b))
        if isinstance(a, (Ptr, PtrU)) and isinstance(b, (Ptr, PtrU)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r and (a.key is b.key or (a.key is not None and b.key is not None and a.key.eq(b.key))):
                u = 1
                if a.r is not None and a.r.kind == "array": u = a.r.elem.size
                elif a.r is not None and a.r.stride: u = a.r.stride
                if not (a.off.divisible(u) and b.off.divisible(u)): u = 1
                return Ptr(a.r, Off(0, ((u, z3.If(c, a.off.div(u), b.off.div(u))),)), a.key)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r and a.r is not None and a.key is not None and b.key is not None and same_off(a.off, b.off):
                return Ptr(a.r, a.off, z3.If(c, a.key, b.key))
            al = [(c, a)] if isinstance(a, Ptr) else [(z3.And(c, x), q) for x, q in a.alts]
            bl = [(z3.Not(c), b)] if isinstance(b, Ptr) else [(z3.And(z3.Not(c), x), q) for x, q in b.alts]
            return PtrU(al + bl)
        if isinstance(a, PInt) and isinstance(b, z3.ExprRef): return self.ite(c, self.toint(a), b)
        if isinstance(b, PInt) and isinstance(a, z3.ExprRef): return self.ite(c, a, self.toint(b))
        raise Unsupported("merge of %r and %r" % (a, b))
    def toint(self, v):
        if isinstance(v, PInt):
            if v.base: raise Unsupported("pointer used as integer")
            return v.off.bytes()
        return v

    def const(self, v):
        k = v.kind
        if k == "int":
            if v.ty.n == 1: return z3.BoolVal(bool(v.x))
            return bv(v.x, v.ty.n)
        if k == "float": return self.F.const(v.x, v.ty.size)
        if k == "null": return NULL
        if k == "undef": return self.fresh(v.ty, "undef") if v.ty.k not in ("struct", "array", "vector") else self.fresh(v.ty, "undef")
        if k == "zero": return self.zero(v.ty)
        if k == "func": return FuncPtr(v.name)
        if k == "global":
            if v.name.startswith("_ZTV"): return VTab(v.name, 0)
            return Ptr(self.global_region(v))
        if k == "agg": return tuple(self.const(x) for x in v.x)
        if k == "expr":
            ops = [self.const(x) for x in v.x]
            if v.name == "gep": return self.gep(ops[0], v.y, ops[1:])
            if v.name == "ptrtoint": return PInt({(ops[0].r, None): 1}, ops[0].off)
            raise Unsupported("constant expression %s" % v.name)
        raise Unsupported("operand kind %s" % k)
    def val(self, st, v):
        if v.kind in ("inst", "arg"):
            try: return st.env[v]
            except KeyError: raise Unsupported("value %s not available" % v.name)
        return self.const(v)

    def global_region(self, v):
        r = self.greg.get(v.name)
        if r is None:
            ty, isc, ini = self.mod.global_info(v.name, v.x)
            if ty.k == "array" and ty.el.k in ("int", "float", "double"):
                r = Region("@" + v.name, "array", ty.el)
            else:
                r = Region("@" + v.name, "struct", None, ty.size)
            r.const = isc; r.tag = ("global", v.name, ty, ini, isc)
            self.greg[v.name] = r
        return r
    def ensure_global(self, st, r):
        if r in st.mem or not (isinstance(r.tag, tuple) and r.tag[0] == "global"): return
        _, name, ty, ini, isc = r.tag
        use_init = isc or (ini is not None and name.startswith("_ZZ") and not self.stored_global(name))
        if r.kind == "array":
            if use_init and ini is not None and ini.kind == "agg" and len(ini.x) <= 4096:
                a = z3.K(BV64, self.zero(ty.el))
                for i, x in enumerate(ini.x): a = z3.Store(a, bv(i), self.const(x))
            else: a = self.fresh_array(r.name, ty.el)
            st.mem[r] = ArrC(a, bv(ty.n)); return
        d = {}
        if use_init and ini is not None:
            self.flat_init(d, 0, ty, ini)
        st.mem[r] = d
    def flat_init(self, d, o, ty, ini):
        if ty.k == "struct":
            for i, t in enumerate(ty.el):
                sub = None
                if ini.kind == "agg": self.flat_init(d, o + ty.offs[i], t, ini.x[i])
                elif ini.kind == "zero": self.flat_init(d, o + ty.offs[i], t, ini)
        elif ty.k == "array":
            if ini.kind == "agg":
                for i, x in enumerate(ini.x): self.flat_init(d, o + i * ty.el.size, ty.el, x)
            elif ini.kind == "zero":
                for i in range(min(ty.n, 256)): self.flat_init(d, o + i * ty.el.size, ty.el, ini)
        else:
            d[o] = (self.zero(ty) if ini.kind == "zero" else self.const(ini), ty)
    def stored_global(self, name):
        c = self.mod.__dict__.setdefault("_stored", None)
        if c is None:
            c = set()
            for fnm in self.mod.defined:
                try: f = self.mod.func(fnm)
                except Exception: continue
                for b in f.blocks:
                    for _, i in b.insts:
                        if i.op == "store":
                            x = i.ops[1]
                            while x.kind == "expr" and x.name == "gep": x = x.x[0]
                            if x.kind == "global": c.add(x.name)
                        elif i.op in ("call", "invoke"):
                            for x in i.ops:
                                if x.kind == "global": c.add(x.name)
            self.mod._stored = c
        return name in c

    def vload(self, p):
        if p.cls.startswith("_ZTV"):
            g = self.mod.named_global(p.cls)
            ini = g[2] if g else None
            if ini is None:
                return VSlot(p.cls, p.off)
            d = {}; self.flat_init(d, 0, g[0], ini)
            v = d.get(p.off)
            if v is None: raise Unsupported("vtable slot")
            return v[0]
        return VSlot(p.cls, p.off)

    def gep(self, base, ty, idx):
        if isinstance(base, PtrU): return PtrU([(c, self.gep(q, ty, idx)) for c, q in base.alts])
        if isinstance(base, VTab):
            o = self.gepoff(ty, idx)
            if not o.conc(): raise Unsupported("vtable index")
            return VTab(base.cls, base.off + o.c)
        if not isinstance(base, Ptr): raise Unsupported("gep on %r" % base)
        return Ptr(base.r, base.off.add(self.gepoff(ty, idx)), base.key)
    def gepoff(self, ty, idx):
        off = Off(); t = ty
        for n, i in enumerate(idx):
            i = self.toint(i)
            if n == 0:
                off = off.add(lin(sext64(i), t.size))
            elif t.k == "struct":
                j = i.as_long(); off = off.add(Off(t.offs[j])); t = t.el[j]
            elif t.k in ("array", "vector"):
                t = t.el; off = off.add(lin(sext64(i), t.size))
            else: raise Unsupported("gep into %r" % t)
        return off

    def ptr_cmp(self, pred, a, b):
        if isinstance(a, PtrU): 
            r = FALSE
            return z3.Or(*[z3.And(c, self.ptr_cmp(pred, q, b)) for c, q in a.alts])
        if isinstance(b, PtrU): return z3.Or(*[z3.And(c, self.ptr_cmp(pred, a, q)) for c, q in b.alts])
        if isinstance(a, FuncPtr) or isinstance(b, FuncPtr) or isinstance(a, VTab) or isinstance(b, VTab):
            if pred in ("eq", "ne"):
                s = same_val(a, b)
                return z3.BoolVal(s == (pred == "eq"))
            raise Unsupported("function pointer comparison")
        if not isinstance(a, Ptr) or not isinstance(b, Ptr): raise Unsupported("pointer comparison %r %r" % (a, b))
        if a.r is not b.r:
            for x, y in ((a, b), (b, a)):
                if x.r is not None and x.r.kind == "opaque" and x.off.conc() and x.off.c == 0 and y.r is None and y.off.conc() and y.off.c == 0:
                    n = z3.Bool("isnull_" + x.r.name)       # an unknown pointer may be null
                    if pred in ("eq", "ne"): return n if pred == "eq" else z3.Not(n)
                if x.r is not None and y.r is not None and x.r.kind == "opaque" and pred in ("eq", "ne"):
                    n = z3.Bool("ptreq_%d_%d" % (min(x.r.id, y.r.id), max(x.r.id, y.r.id)))
                    return n if pred == "eq" else z3.Not(n)
            if pred == "eq": return FALSE
            if pred == "ne": return TRUE
            raise Unsupported("ordering of unrelated pointers")
        u = 1
        if a.r is not None and a.r.kind == "array": u = a.r.elem.size
        if not (a.off.divisible(u) and b.off.divisible(u)): u = 1
        d = a.off.add(b.off.neg())
        if d.conc() and pred in ("eq", "ne") and (a.key is None or a.key.eq(b.key)):
            return z3.BoolVal((d.c == 0) == (pred == "eq"))
        x, y = a.off.div(u), b.off.div(u)
        r = bvcmp(pred, x, y)
        if a.key is not None and not a.key.eq(b.key):
            if pred == "eq": r = z3.And(a.key == b.key, r)
            elif pred == "ne": r = z3.Or(a.key != b.key, r)
            else: raise Unsupported("ordering of pointers with different keys")
        return r

    # ------------------------------------------------------------ instructions
    def exec_inst(self, st, v, I):
        op = I.op
        if op == "load":
            p = self.val(st, I.ops[0])
            if isinstance(p, Ptr) and p.r is not None: self.ensure_global(st, p.r)
            if I.ty.k in ("struct", "array", "vector"): raise Unsupported("aggregate load")
            st.env[v] = self.load(st, p, I.ty, I.line); return
        if op == "store":
            x = self.val(st, I.ops[0]); p = self.val(st, I.ops[1])
            if isinstance(p, Ptr) and p.r is not None: self.ensure_global(st, p.r)
            ty = I.ops[0].ty
            if ty.k in ("struct", "array", "vector"): raise Unsupported("aggregate store")
            self.store(st, p, x, ty, I.line); return
        if op == "gep":
            st.env[v] = self.gep(self.val(st, I.ops[0]), I.attr["ty"], [self.val(st, o) for o in I.ops[1:]]); return
        if op == "alloca":
            ty = I.attr["ty"]
            n = I.ops[0]
            if ty.k == "array" and ty.el.k in ("int", "float", "double") and ty.n > 1:
                r = self.new_array(st, "local%s" % v.name, ty.el, bv(ty.n))
            else:
                r = self.new_struct(st, "local%s" % v.name, ty.size, local=True)
            r.local = True
            st.env[v] = Ptr(r); return
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            st.env[v] = self.binop(st, op, self.val(st, I.ops[0]), self.val(st, I.ops[1]), I); return
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            st.env[v] = self.F.bin(op, self.val(st, I.ops[0]), self.val(st, I.ops[1])); return
        if op == "fneg": st.env[v] = self.F.un("fneg", self.val(st, I.ops[0])); return
        if op == "icmp":
            a = self.val(st, I.ops[0]); b = self.val(st, I.ops[1]); pr = I.attr["pred"]
            if isinstance(a, PInt) and isinstance(b, PInt) and a.base and a.base == b.base:
                st.env[v] = bvcmp(pr, a.off.bytes(), b.off.bytes()); return
            if I.ops[0].ty.k == "ptr": st.env[v] = self.ptr_cmp(pr, a, b)
            else:
                a = self.toint(a); b = self.toint(b)
                if z3.is_bool(a):
                    a = z3.If(a, bv(1, 1), bv(0, 1)); b = z3.If(b, bv(1, 1), bv(0, 1))
                    st.env[v] = simp(bvcmp(pr, a, b))
                else: st.env[v] = bvcmp(pr, a, b)
            return
        if op == "fcmp":
            st.env[v] = self.F.cmp(I.attr["pred"], self.val(st, I.ops[0]), self.val(st, I.ops[1])); return
        if op == "select":
            c = self.val(st, I.ops[0]); st.env[v] = self.ite(simp(c), self.val(st, I.ops[1]), self.val(st, I.ops[2])); return
        if op in ("zext", "sext", "trunc"):
            a = self.toint(self.val(st, I.ops[0])); n = I.ty.n
            if z3.is_bool(a):
                if op == "zext": r = z3.If(a, bv(1, n), bv(0, n))
                else: r = z3.If(a, bv(-1, n), bv(0, n))
            elif op == "zext": r = z3.ZeroExt(n - a.size(), a)
            elif op == "sext": r = z3.SignExt(n - a.size(), a)
            elif n == 1: r = z3.Extract(0, 0, a) == 1
            else: r = z3.Extract(n - 1, 0, a)
            st.env[v] = simp(r); return
        if op in ("fptrunc", "fpext", "sitofp", "uitofp", "fptosi", "fptoui"):
            a = self.toint(self.val(st, I.ops[0]))
            if z3.is_bool(a): a = z3.If(a, bv(1, 8), bv(0, 8)) if op == "uitofp" else z3.If(a, bv(-1, 8), bv(0, 8))
            st.env[v] = self.F.conv(op, a, self.sort(I.ty)); return
        if op == "ptrtoint":
            p = self.val(st, I.ops[0])
            if not isinstance(p, Ptr): raise Unsupported("ptrtoint")
            if p.r is None: st.env[v] = p.off.bytes(); return
            st.env[v] = PInt({(p.r, p.key.get_id() if p.key is not None else None): 1}, p.off); return
        if op == "inttoptr":
            x = self.val(st, I.ops[0])
            if isinstance(x, PInt) and len(x.base) == 1 and list(x.base.values()) == [1]:
                st.env[v] = Ptr(list(x.base)[0][0], x.off); return
            raise Unsupported("inttoptr")
        if op == "bitcast":
            a = self.val(st, I.ops[0])
            st.env[v] = self.coerce(a, I.ops[0].ty, I.ty); return
        if op == "freeze": st.env[v] = self.val(st, I.ops[0]); return
        if op == "extractvalue":
            a = self.val(st, I.ops[0])
            for j in I.attr["idx"]: a = a[j]
            st.env[v] = a; return
        if op == "insertvalue":
            a = self.val(st, I.ops[0]); x = self.val(st, I.ops[1]); ix = I.attr["idx"]
            def ins(a, ix): 
                l = list(a); l[ix[0]] = x if len(ix) == 1 else ins(l[ix[0]], ix[1:]); return tuple(l)
            st.env[v] = ins(a, ix); return
        raise Unsupported("instruction %s" % op)

    def binop(self, st, op, a, b, I):
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op in ("add", "sub"):
                A = a if isinstance(a, PInt) else PInt({}, lin(a, 1)); B = b if isinstance(b, PInt) else PInt({}, lin(b, 1))
                s = 1 if op == "add" else -1
                base = dict(A.base)
                for k, n in B.base.items(): base[k] = base.get(k, 0) + s * n
                base = {k: n for k, n in base.items() if n}
                return PInt(base, A.off.add(B.off if s == 1 else B.off.neg()))
            if op in ("sdiv", "udiv", "ashr", "lshr") and isinstance(a, PInt) and not a.base and z3.is_bv_value(b):
                d = b.as_long() if op in ("sdiv", "udiv") else 1 << b.as_long()
                if a.off.divisible(d):
                    return a.off.div(d)
            if op == "and" and isinstance(a, PInt) and z3.is_bv_value(b): pass
            a = self.toint(a); b = self.toint(b)
        if z3.is_bool(a):
            return {"and": lambda: z3.And(a, b), "or": lambda: z3.Or(a, b), "xor": lambda: z3.Xor(a, b), "add": lambda: z3.Xor(a, b)}[op]()
        n = a.size()
        L = I.line
        if op in ("add", "sub", "mul") and I.attr.get("nsw"):
            if op == "add": ok = z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b))
            elif op == "sub": ok = z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True))
            else: ok = z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))
            if not self.opts.get("no_overflow_obligations"):
                self.oblige(st, ok, "overflow", "signed %s does not overflow" % op, L)
        if op == "add": return simp(a + b) if z3.is_bv_value(a) or z3.is_bv_value(b) else a + b
        if op == "sub": return simp(a - b) if z3.is_bv_value(a) or z3.is_bv_value(b) else a - b
        if op == "mul": return simp(a * b) if z3.is_bv_value(a) or z3.is_bv_value(b) else a * b
        if op in ("udiv", "sdiv", "urem", "srem"):
            if not z3.is_bv_value(b) or b.as_long() == 0:
                self.oblige(st, b != 0, "division", "divisor is not zero", L)
            if op in ("sdiv", "srem"):
                if not z3.is_bv_value(b): self.oblige(st, z3.Not(z3.And(a == bv(1 << (n - 1), n), b == bv(-1, n))), "overflow", "division does not overflow", L)
            if op == "srem" and self.opts.get("srem_uf"): r = SREM(a, b); st.assume(z3.Implies(z3.And(a >= 0, b > 0), z3.And(r >= 0, r <= a, r < b))); return r     # little more than that it is a function
            return {"udiv": lambda: z3.UDiv(a, b), "sdiv": lambda: a / b, "urem": lambda: z3.URem(a, b), "srem": lambda: z3.SRem(a, b)}[op]()
        if op in ("shl", "lshr", "ashr"):
            if z3.is_bv_value(b):
                if b.as_long() >= n: self.oblige(st, FALSE, "shift", "shift amount below width", L)
                if op == "shl": return simp(a * bv(1 << b.as_long(), n))
            else: self.oblige(st, z3.ULT(b, bv(n, n)), "shift", "shift amount below the operand width", L)
            return simp({"shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b), "ashr": lambda: a >> b}[op]())
        return simp({"and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b}[op]())

class PathEnd(Exception): pass

def same_off(a, b): return a.c == b.c and len(a.t) == len(b.t) and all(x[0] == y[0] and x[1].eq(y[1]) for x, y in zip(a.t, b.t))
def tykey_eq(a, b): return a is b or (a.k == b.k and a.n == b.n)
def sext64(i):
    if z3.is_bool(i): i = z3.If(i, bv(-1, 64), bv(0, 64)); return i
    return i if i.size() == 64 else simp(z3.SignExt(64 - i.size(), i))
def bvcmp(pred, a, b):
    return {"eq": lambda: a == b, "ne": lambda: a != b, "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b), "ugt": lambda: z3.UGT(a, b),
            "uge": lambda: z3.UGE(a, b), "slt": lambda: a < b, "sle": lambda: a <= b, "sgt": lambda: a > b, "sge": lambda: a >= b}[pred]()

def solve(fs, timeout):
    q = any(has_quant(f) for f in fs)
    if not q:
        s = z3.Solver(); s.set("timeout", timeout)
        s.add(*fs); r = s.check()
        return r, (s.model() if r == z3.sat else None)
    def quant(ms):
        s = z3.SimpleSolver(); s.set("timeout", ms); s.set("mbqi", False)
        s.add(*fs)
        r = s.check()
        return r, (s.model() if r == z3.sat else s.reason_unknown() if r == z3.unknown else None)
    r, m = quant(min(timeout, 250))
    if r != z3.unknown: return r, m
    # second stage: instantiate the quantifiers by syntactic matching, then a quantifier-free solver
    r2 = None
    try:
        g = ground(fs)
        s = z3.Solver(); s.set("timeout", timeout); s.add(*g)
        r2 = s.check()
        if r2 == z3.unsat: return r2, None
    except GroundFail: pass
    if "cancel" in str(m) or "timeout" in str(m):
        r, m = quant(min(timeout, 3000))
        if r != z3.unknown: return r, m
    return r, "%s; ground instances: %s" % (m, r2)

class GroundFail(Exception): pass
_sk = itertools.count()
def flatten(fs):
    """split conjunctions, skolemise negated universals; yields (ground facts, universals)"""
    out, qs = [], []
    st = list(reversed(fs))
    while st:
        f = st.pop()
        if z3.is_and(f): st.extend(reversed(f.children())); continue
        if z3.is_not(f):
            x = f.arg(0)
            if z3.is_not(x): st.append(x.arg(0)); continue
            if z3.is_or(x): st.extend(z3.Not(y) for y in x.children()); continue
            if z3.is_implies(x): st.append(x.arg(0)); st.append(z3.Not(x.arg(1))); continue
            if z3.is_and(x) and has_quant(x):
                # a conjunction to refute: keep as disjunction, skolemising each negated universal
                st.append(z3.Or(*[skolem(z3.Not(y)) for y in x.children()])); continue
            if z3.is_quantifier(x):
                if not x.is_forall(): raise GroundFail()
                cs = [z3.Const("sk!%d" % next(_sk), x.var_sort(i)) for i in range(x.num_vars())]
                st.append(z3.Not(z3.substitute_vars(x.body(), *reversed(cs)))); continue
        if z3.is_quantifier(f):
            if not f.is_forall(): raise GroundFail()
            qs.append(f); continue
        if has_quant(f): continue          # dropping a hypothesis is sound
        out.append(f)
    return out, qs
def skolem(f):
    if z3.is_not(f) and z3.is_quantifier(f.arg(0)) and f.arg(0).is_forall():
        x = f.arg(0)
        cs = [z3.Const("sk!%d" % next(_sk), x.var_sort(i)) for i in range(x.num_vars())]
        return z3.Not(z3.substitute_vars(x.body(), *reversed(cs)))
    return f
def match(pat, t, sub):
    if z3.is_var(pat):
        i = z3.get_var_index(pat)
        if i in sub: return sub[i].eq(t)
        if not pat.sort().eq(t.sort()): return False
        sub[i] = t; return True
    if pat.num_args() == 0: return pat.eq(t)
    if not z3.is_app(t) or not pat.decl().eq(t.decl()) or pat.num_args() != t.num_args(): return False
    return all(match(p, x, sub) for p, x in zip(pat.children(), t.children()))
def ground(fs, rounds=14, cap=4000):
    facts, qs = flatten(fs)
    terms = {}; seen = set(); byh = {}
    def collect(f):
        st = [f]
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id()); keep.append(x)
            if z3.is_quantifier(x): continue
            if z3.is_app(x) and x.num_args(): byh.setdefault(x.decl().get_id(), []).append(x)
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT:
                # reading an updated or chosen array also reads the arrays it is made from
                a = x.arg(0); k = a.decl().kind()
                if k == z3.Z3_OP_STORE: st.append(z3.Select(a.arg(0), *x.children()[1:]))
                elif k == z3.Z3_OP_ITE: st.append(z3.Select(a.arg(1), *x.children()[1:])); st.append(z3.Select(a.arg(2), *x.children()[1:]))
            st.extend(x.children())
    keep = []
    for f in facts: collect(f)
    pats = []
    for q in qs:
        ps = []
        for i in range(q.num_patterns()):
            p = q.pattern(i)
            ps.append(list(p.children()))
        pats.append((q, ps))
    done = set(); n = 0
    for rd in range(rounds):
        new = []
        for q, ps in pats:
            for mp in ps:
                subs = [{}]
                for p in mp:
                    nxt = []
                    for s0 in subs:
                        for t in byh.get(p.decl().get_id(), ()):
                            s1 = dict(s0)
                            if match(p, t, s1): nxt.append(s1)
                    subs = nxt
                for s1 in subs:
                    if len(s1) != q.num_vars(): continue
                    key = (q.get_id(),) + tuple(s1[i].get_id() for i in range(q.num_vars()))
                    if key in done: continue
                    done.add(key); n += 1
                    new.append(z3.substitute_vars(q.body(), *[s1[i] for i in range(q.num_vars())]))
                    if n > cap: break
        if not new: break
        for f in new:
            f = simp(f)
            a, b = flatten([f])
            for x in a: facts.append(x); collect(x)
            for x in b: pats.append((x, [list(x.pattern(i).children()) for i in range(x.num_patterns())]))
        if n > cap: break
    return facts
