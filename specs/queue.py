"""The blocking queue as a monitor: taking the lock gives an arbitrary state satisfying the invariant (any number of other
threads, any schedule, spurious wake-ups included); releasing it, by unlock or wait, must re-establish the invariant and must
have changed the queue only in the way the operation promises."""
import z3
from irv import llvmir as ir
from irv.engine import *
from irv.contract import Contract
from specs.model import const_fn
MAXQ = 1 << 28
HELD, NUM0, HEAD0, DONE, NE, NF, CHG = 0, 8, 16, 24, 32, 40, 48       # ghost cells
def o(E, n): return const_fn(E.mod, "o_Q_" + n)
def q32(E, st, n): return E.load(st, Ptr(E.q, Off(o(E, n))), ir.I32)
def g(E, st, k): return E.load(st, Ptr(E.G, Off(k)), ir.I32)
def gs(E, st, k, v): E.store(st, Ptr(E.G, Off(k)), simp(v), ir.I32)
def wrap(x, n): return z3.If(x < n, x, x - n)
def inv(E, st):
    n, h, t, s = (q32(E, st, k) for k in ("num", "head", "tail", "size"))
    return z3.And(n >= 0, n <= s, h >= 0, h < s, t == wrap(h + n, s))
def at(E, st, snap, j):
    """element j (counted from the head) now or at the time the lock was taken"""
    s = q32(E, st, "size"); h = g(E, st, HEAD0) if snap else q32(E, st, "head")
    return z3.Select(st.mem[E.snap if snap else E.el].a, z3.ZeroExt(32, wrap(h + j, s)))
def acquire(E, st):
    for n in ("num", "head", "tail"): E.store(st, Ptr(E.q, Off(o(E, n))), z3.BitVec(E.name(n), 32), ir.I32)
    a = E.fresh_array("elems", ir.I64); st.mem[E.el] = ArrC(a, st.mem[E.el].n); E.note_write(E.el, "a"); st.mem[E.snap] = ArrC(a, st.mem[E.snap].n); E.note_write(E.snap, "a")
    gs(E, st, HELD, bv(1, 32)); gs(E, st, NUM0, q32(E, st, "num")); gs(E, st, HEAD0, q32(E, st, "head"))
    for k in (NE, NF, CHG): gs(E, st, k, bv(0, 32))
    st.assume(inv(E, st))
def release(E, st, line, what):
    E.oblige(st, g(E, st, HELD) == 1, "monitor", "%s: the lock is held" % what, line)
    E.oblige(st, inv(E, st), "monitor", "%s: the queue is consistent" % what, line)
    for nm, f in E.op.step(E, st): E.oblige(st, f, "monitor", "%s: %s" % (what, nm), line)
    gs(E, st, DONE, g(E, st, DONE) + E.op.moved(E, st)); gs(E, st, CHG, z3.If(E.op.moved(E, st) != 0, E.op.moved(E, st), g(E, st, CHG)))
    gs(E, st, HELD, bv(0, 32)); gs(E, st, NUM0, q32(E, st, "num"))
def is_(E, p, n, line, st, what):
    if not (isinstance(p, Ptr) and p.r is E.q and p.off.conc() and p.off.c in [o(E, k) for k in n]): E.oblige(st, FALSE, "monitor", what, line); raise PathEnd()
    return p.off.c
def woken(E, st):
    """whoever can go on after what was done here has been notified"""
    m, cell = E.op.moved(E, st), NE if E.op.put else NF
    c = z3.If(m != 0, m, g(E, st, CHG)); f = g(E, st, cell)
    return z3.Or(c == 0, f == 2, z3.And(c == 1, f == 1))
def x_lock(E, st, a, I):
    """the mutex gives mutual exclusion; other threads leave the queue in any state satisfying its invariant"""
    is_(E, a[0], ["lock"], I.line, st, "the queue's own mutex is locked"); E.oblige(st, g(E, st, HELD) == 0, "monitor", "the lock is not held yet", I.line)
    acquire(E, st); return bv(0, 32)
def x_unlock(E, st, a, I):
    """the mutex gives mutual exclusion; other threads leave the queue in any state satisfying its invariant"""
    is_(E, a[0], ["lock"], I.line, st, "the queue's own mutex is unlocked"); release(E, st, I.line, "unlock"); return bv(0, 32)
def x_wait(E, st, a, I):
    """a wait releases the mutex, may end at any time (spurious wake-ups), and takes the mutex again"""
    c = is_(E, a[0], ["nonfull", "nonempty"], I.line, st, "a condition of the queue is waited for"); is_(E, a[1], ["lock"], I.line, st, "the queue's own mutex is released while waiting")
    n, s = q32(E, st, "num"), q32(E, st, "size")
    E.oblige(st, (n == s if c == o(E, "nonfull") else n == 0) if (c == o(E, "nonfull")) == E.op.put else FALSE, "progress", "waits only while the queue is %s" % ("full" if E.op.put else "empty"), I.line)
    E.oblige(st, woken(E, st), "progress", "those who can go on are notified before waiting", I.line)
    release(E, st, I.line, "wait"); acquire(E, st); return bv(0, 32)
def x_notify(k):
    def h(E, st, a, I):
        c = is_(E, a[0], ["nonfull", "nonempty"], I.line, st, "a condition of the queue is notified"); cell = NF if c == o(E, "nonfull") else NE
        v = g(E, st, cell); gs(E, st, cell, bv(2, 32) if k == 2 else z3.If(v == 0, bv(1, 32), v)); return bv(0, 32)
    h.__doc__ = "notification wakes one (signal) or all (broadcast) waiting threads"
    return h
def x_init(E, st, a, I):
    """pthread initialisation functions touch only their own object"""
    return bv(0, 32)
QEXT = {"pthread_mutex_lock": x_lock, "pthread_mutex_unlock": x_unlock, "pthread_cond_wait": x_wait, "pthread_cond_signal": x_notify(1), "pthread_cond_broadcast": x_notify(2), "pthread_mutex_init": x_init, "pthread_cond_init": x_init}
LISTC = ("any length",)
class Op(Contract):
    put = True; listed = False
    opts = {"timeout": 20000, "cand_timeout": 6000, "srem_uf": True, "no_merge": True}
    def target(self, mod): return self.sym
    def setup(self, E, st, case):
        E.op = self; E.q = E.new_struct(st, "queue", const_fn(E.mod, "z_Q")); p = lambda n: Ptr(E.q, Off(o(E, n)))
        sz = E.load(st, p("size"), ir.I32); E.el = E.new_array(st, "elems", ir.I64, z3.ZeroExt(32, sz)); E.snap = E.new_array(st, "snap", ir.I64, z3.ZeroExt(32, sz)); E.store(st, p("elems"), Ptr(E.el), ir.PTR)
        for n in ("nfm", "nem"): E.store(st, p(n), p("lock"), ir.PTR)
        for n in ("num", "head", "tail"): E.load(st, p(n), ir.I32)
        E.G = E.new_struct(st, "ghost", 56)
        for k in range(0, 56, 8): E.store(st, Ptr(E.G, Off(k)), bv(0, 32), ir.I32)
        x = z3.BitVec("sx", 32)
        E.defs.append(z3.ForAll([x], z3.Implies(z3.And(sz > 0, sz < MAXQ, x >= 0, x < 2 * sz), SREM(x, sz) == wrap(x, sz)), patterns=[SREM(x, sz)]))
        self.sz = sz; return [Ptr(E.q)] + self.args(E, st)
    def bind(self, E, st, a): return {}
    def pre(self, E, st, e): return [("queue size", z3.And(self.sz >= 1, self.sz < MAXQ))] + ([("list length", z3.And(self.n >= 0, self.n < MAXQ))] if self.listed else [])
    def modifies(self, E, st, e): return {E.G, E.el, E.snap} | {(E.q, o(E, n)) for n in ("num", "head", "tail")} | ({self.l} if self.listed and not self.put else set())
    def moved(self, E, st): d = q32(E, st, "num") - g(E, st, NUM0); return d if self.put else -d
    def item(self, E, st, k): return self.e
    def step(self, E, st):
        m = self.moved(E, st); n0, h0, d = (g(E, st, k) for k in (NUM0, HEAD0, DONE)); n, h = q32(E, st, "num"), q32(E, st, "head"); p = z3.BitVec("ps", 64); A, S = st.mem[E.el].a, st.mem[E.snap].a; sz = self.sz
        dist = lambda h: z3.If(z3.Extract(31, 0, p) >= h, z3.Extract(31, 0, p) - h, z3.Extract(31, 0, p) - h + sz)
        slot = z3.ULT(p, z3.ZeroExt(32, sz)); all_ = lambda f: z3.ForAll([p], z3.Implies(slot, f), patterns=[z3.Select(A, p)])
        f = [("only %s" % ("adds" if self.put else "removes"), m >= 0), ("as many as are wanted", d + m <= self.want())]
        if self.put:
            f += [("the first element stays first", h == h0), ("what was in the queue stays, in order", all_(z3.Implies(dist(h0) < n0, z3.Select(A, p) == z3.Select(S, p)))),
                  ("the new elements follow in their order", all_(z3.Implies(z3.And(dist(h0) >= n0, dist(h0) - n0 < m), z3.Select(A, p) == self.item(E, st, d + dist(h0) - n0))))]
        else:
            f += [("the first elements are removed", h == wrap(h0 + m, sz)), ("what stays keeps its order", all_(z3.Implies(dist(h) < n, z3.Select(A, p) == z3.Select(S, p))))]
            if self.listed:
                T = st.mem[self.l].a; t = z3.Extract(31, 0, p) - d
                f += [("the first elements are handed out in order", z3.ForAll([p], z3.Implies(z3.And(z3.UGE(p, z3.ZeroExt(32, d)), z3.ULT(p, z3.ZeroExt(32, d + m))), z3.Select(T, p) == z3.Select(S, z3.ZeroExt(32, wrap(h0 + t, sz)))), patterns=[z3.Select(T, p)]))]
        return f
    def want(self): return self.n if self.listed else bv(1, 32)
    def loop(self, L):
        E = L.engine; h = L.head; G = lambda k: g(E, h, k); c = []
        n, hd, tl = (q32(E, h, k) for k in ("num", "head", "tail")); j = z3.BitVec("jl", 32)
        c += [G(HELD) == 1, inv(E, h), self.moved(E, h) == 0, G(DONE) == 0, G(CHG) == 0, G(NE) == 0, G(NF) == 0] + [f for _, f in self.step(E, h)]
        a = z3.BitVec("ja", 64); c += [z3.ForAll([a], z3.Select(h.mem[E.el].a, a) == z3.Select(h.mem[E.snap].a, a), patterns=[z3.Select(h.mem[E.el].a, a)])]
        c += [hd == G(HEAD0), hd == wrap(G(HEAD0) + self.moved(E, h), self.sz), G(NUM0) >= 0, G(NUM0) <= self.sz, G(HEAD0) >= 0, G(HEAD0) < self.sz]
        ks = [v for v in L.phis.values() if isinstance(v, z3.ExprRef) and z3.is_bv(v) and v.size() == 32]
        for v, x in L.entry.env.items():
            if isinstance(x, z3.ExprRef) and z3.is_bv(x) and x.size() == 32 and not z3.is_bv_value(x) and len(ks) < 6 and not any(x.eq(y) for y in ks): ks.append(x)
        for v in ks: c += [G(DONE) + self.moved(E, h) == v, v >= 0, v <= self.want(), v < self.want(), G(DONE) == v]
        c += [G(DONE) >= 0, G(DONE) + self.moved(E, h) >= 0]
        if self.listed and not self.put:
            old = E.old.mem[self.l].a; L0 = h.mem[self.l].a
            for v in ks: c += [z3.ForAll([a], z3.Implies(z3.UGE(a, z3.ZeroExt(32, v)), z3.Select(L0, a) == z3.Select(old, a)), patterns=[z3.Select(L0, a)])]
        return c
    def post(self, E, old, st, e, ret):
        d = g(E, st, DONE); c = g(E, st, CHG); f = g(E, st, NE if self.put else NF)
        return [("the lock is released", g(E, st, HELD) == 0), ("those who can go on were notified", z3.Or(c == 0, f == 2, z3.And(c == 1, f == 1)))] + self.done(E, st, d, ret)
class Put(Op):
    title = "BlockQueue::Enqueue: waits while full, then appends exactly the element"; sym = "q_put"
    def args(self, E, st): self.e = z3.BitVec("elem", 64); self.el = r = E.new_array(st, "elem", ir.I64, bv(1), content=None); st.mem[r] = ArrC(z3.Store(st.mem[r].a, bv(0), self.e), st.mem[r].n); return [Ptr(r)]
    def done(self, E, st, d, ret): return [("exactly one element was added", d == 1)]
class PutList(Op):
    title = "BlockQueue::Enqueue of a list: appends all elements in order"; sym = "q_put_list"; listed = True
    def args(self, E, st): self.n = z3.BitVec("n", 32); self.l = E.new_array(st, "list", ir.I64, z3.ZeroExt(32, self.n)); return [Ptr(self.l), self.n]
    def item(self, E, st, k): return z3.Select(st.mem[self.l].a, z3.ZeroExt(32, k))
    def done(self, E, st, d, ret): return [("every element was added", d == self.n)]
class Get(Op):
    title = "BlockQueue::Dequeue: waits while empty, then takes exactly the first element"; sym = "q_get"; put = False
    def args(self, E, st): return []
    def done(self, E, st, d, ret): return [("exactly one element was taken", d == 1), ("it is returned", ret == at(E, st, True, bv(0, 32)))]
class TryGet(Op):
    title = "BlockQueue::TryDequeue: takes the first element if there is one, without waiting"; sym = "q_try_get"; put = False
    def args(self, E, st): self.l = E.new_array(st, "elem", ir.I64, bv(1)); return [Ptr(self.l)]
    def modifies(self, E, st, e): return Op.modifies(self, E, st, e) | {self.l}
    def done(self, E, st, d, ret):
        x = z3.Select(st.mem[self.l].a, bv(0)); return [("takes one if there is one", d == z3.If(ret, bv(1, 32), bv(0, 32))), ("nothing only if there is nothing", z3.Implies(z3.Not(ret), g(E, st, NUM0) == 0)), ("it is handed out", z3.If(ret, x == at(E, st, True, bv(0, 32)), x == z3.Select(E.old.mem[self.l].a, bv(0))))]
class GetList(Op):
    title = "BlockQueue::Dequeue of several: hands out the first elements in order"; sym = "q_get_list"; put = False; listed = True
    def args(self, E, st): self.n = z3.BitVec("n", 32); self.l = E.new_array(st, "list", ir.I64, z3.ZeroExt(32, self.n)); self.f = z3.Bool("force"); return [Ptr(self.l), self.n, self.f]
    def done(self, E, st, d, ret):
        a = z3.BitVec("jd", 64); old = E.old.mem[self.l].a
        return [("returns how many were taken", ret == d), ("at least one if any is wanted", z3.Implies(self.n >= 1, d >= 1)), ("no more than wanted", d <= self.n),
                ("a forced call ends short only at an end mark", z3.Implies(z3.And(self.f, d < self.n), z3.Select(st.mem[self.l].a, z3.ZeroExt(32, d - 1)) == 0)),
                ("nothing beyond is written", z3.ForAll([a], z3.Implies(z3.UGE(a, z3.ZeroExt(32, d)), z3.Select(st.mem[self.l].a, a) == z3.Select(old, a))))]
class Ctor(Contract):
    title = "BlockQueue: a new queue is empty and has the requested capacity"
    def target(self, mod): return "q_ctor"
    def setup(self, E, st, case): E.q = E.new_struct(st, "queue", const_fn(E.mod, "z_Q")); self.n = z3.BitVec("n", 32); return [Ptr(E.q), self.n]
    def bind(self, E, st, a): return {}
    def pre(self, E, st, e): return [("queue size", z3.And(self.n >= 1, self.n < MAXQ))]
    def modifies(self, E, st, e): return {E.q}
    def post(self, E, old, st, e, ret):
        L = lambda n, t=ir.I32: E.load(st, Ptr(E.q, Off(o(E, n))), t); p = L("elems", ir.PTR); lk = [L(n, ir.PTR) for n in ("nfm", "nem")]
        m = st.mem.get(p.r); sz = m[0].bytes() if isinstance(m, tuple) else m.n * 8 if m is not None else bv(0)
        return [("empty", z3.And(L("num") == 0, L("head") == 0, L("tail") == 0)), ("capacity", L("size") == self.n), ("storage for the capacity", sz == z3.ZeroExt(32, self.n) * 8),
                ("both conditions use the queue's mutex", TRUE if all(isinstance(x, Ptr) and x.r is E.q and x.off.conc() and x.off.c == o(E, "lock") for x in lk) else FALSE)]
# (PutList and GetList are not discharged by the solvers in reasonable time: the bounded schedule exploration of bt/queue.cc stands in)
class WrapLemma(Contract):
    title = "the remainder used for wrapping round"
    def target(self, mod): return None
    def direct(self):
        import time
        t = time.time(); x, n = z3.BitVecs("x n", 32); s = z3.Solver(); s.set("timeout", 60000)
        s.add(n > 0, n < MAXQ, x >= 0, x < 2 * n, z3.SRem(x, n) != wrap(x, n)); r = repr(s.check())
        return [("x rem n is x or x - n for 0 <= x < 2n", {"unsat": "proved", "sat": "refuted"}.get(r, "unknown"), "z3-py", time.time() - t)]
def contracts(): return [WrapLemma(), Ctor(), Put(), Get(), TryGet()]
