"""Reading data sets in batches: the reading task against an arbitrary data source, and the iterator against arbitrary readers.
The queues are used through their contracts (property C12: first in, first out, nothing lost)."""
import z3
from irv import llvmir as ir
from irv.engine import *
from irv.contract import Contract
from specs.model import off, size
Q = "_ZN3sol10BlockQueueIPNS_5pario9MiniBatchELNS_9QueueTypeE2EE"
DEQ, ENQ, START = Q + "7DequeueEv", Q + "7EnqueueERKS3_", "_ZN3sol10ThreadTask5StartEv"
HAVE, FILL, EOF, ERR, PASS, EXIT, CLOSED, ENDED, BACK = range(0, 72, 8)   # ghost cells
def gl(E, st, o): return E.load(st, Ptr(E.G, Off(o)), ir.I32)
def gs(E, st, o, v): E.store(st, Ptr(E.G, Off(o)), simp(v) if isinstance(v, z3.ExprRef) else bv(v, 32), ir.I32)
def mb32(E, st, n): return E.load(st, Ptr(E.mb, Off(off(E, "MiniBatch_" + n))), ir.I32)
def same(p, r): return isinstance(p, Ptr) and p.off.conc() and (p.r is r.r and p.off.c == r.c if isinstance(r, Sub) else p.r is r and p.off.c == 0)
def isnull(p): return p is NULL or (isinstance(p, Ptr) and getattr(p, "r", None) is None)
def ob(E, st, f, what, line): E.oblige(st, f, "order", what, line)
def bad(E, st, what, line): ob(E, st, FALSE, what, line); raise PathEnd()
# ---- the reading task
def x_read(E, st, a, I):
    """the data source gives any sequence of records, ends of file and errors"""
    g = lambda o: gl(E, st, o)
    p = a[1]
    if not (isinstance(p, Ptr) and p.r is E.points): bad(E, st, "a record is read into the batch", I.line)
    key, fo = E.resolve_key(st, p, I.line, "use")
    ob(E, st, z3.And(g(HAVE) == 1, z3.BoolVal(fo == 0), key == z3.SignExt(32, g(FILL)), g(FILL) < mb32(E, st, "cap")), "each record is read into the next place of the batch", I.line)
    ob(E, st, z3.And(g(EOF) == 0, g(ERR) == 0, g(CLOSED) == 0), "no reading on after the end of a pass or an error", I.line)
    ob(E, st, g(PASS) < E.env["pass"], "no reading after the last pass", I.line)
    s2, s3 = st.copy(), st.copy(); gs(E, st, FILL, g(FILL) + 1); gs(E, s2, EOF, 1); gs(E, s3, ERR, 1); v = z3.BitVec(E.name("status"), 32); s3.assume(z3.And(v != 0, v != 3))
    return [Outcome("ret", st, val=bv(0, 32)), Outcome("ret", s2, val=bv(3, 32)), Outcome("ret", s3, val=v)]
def x_rewind(E, st, a, I):
    """rewinding starts the data source again"""
    ob(E, st, gl(E, st, EOF) == 1, "rewinds at the end of a pass, once", I.line); gs(E, st, EOF, 2); gs(E, st, PASS, gl(E, st, PASS) + 1)
def x_close(E, st, a, I):
    """closing the data source has no further effect"""
    ob(E, st, z3.And(gl(E, st, HAVE) == 0, gl(E, st, CLOSED) == 0), "the data source is closed when no batch is open", I.line); gs(E, st, CLOSED, 1)
def t_deq(E, st, a, I):
    """taking from the queue of free batches gives any free batch, or the exit mark (C12)"""
    g = lambda o: gl(E, st, o)
    if not same(a[0], E.fac): bad(E, st, "batches are taken from the free ones", I.line)
    ob(E, st, z3.And(g(HAVE) == 0, g(ERR) == 0, g(EXIT) == 0, g(CLOSED) == 0), "a batch is opened when the one before was delivered and reading goes on", I.line)
    s2 = st.copy(); gs(E, st, EXIT, 1); gs(E, s2, HAVE, 1); gs(E, s2, FILL, 0); gs(E, s2, EOF, 0)
    for n in ("n", "cap"): E.store(s2, Ptr(E.mb, Off(off(E, "MiniBatch_" + n))), z3.BitVec(E.name(n), 32), ir.I32)
    s2.assume(mb32(E, s2, "cap") >= 1)
    return [Outcome("ret", st, val=NULL), Outcome("ret", s2, val=Ptr(E.mb))]
def t_enq(E, st, a, I):
    """appending to a queue appends exactly that element (C12)"""
    g = lambda o: gl(E, st, o); v = E.load(st, a[1], ir.PTR)
    if same(a[0], E.fac):
        if not isnull(v): bad(E, st, "only the exit mark is put back", I.line)
        ob(E, st, z3.And(g(EXIT) == 1, g(BACK) == 0), "the exit mark is put back for the other readers, once", I.line); gs(E, st, BACK, 1); return None
    if not same(a[0], E.buf): bad(E, st, "one of the two queues is used", I.line)
    if isnull(v):
        ob(E, st, z3.And(g(HAVE) == 0, g(ENDED) == 0, z3.Or(g(PASS) == z3.If(E.env["pass"] < 0, bv(0, 32), E.env["pass"]), g(ERR) == 1, g(EXIT) == 1)), "the end is announced once, after the last pass, an error or the exit mark", I.line); gs(E, st, ENDED, 1); return None
    if not same(v, E.mb): bad(E, st, "the open batch is delivered", I.line)
    ob(E, st, z3.And(g(HAVE) == 1, g(ENDED) == 0), "each batch is delivered once", I.line)
    ob(E, st, mb32(E, st, "n") == g(FILL), "a delivered batch has exactly the records read into it", I.line)
    ob(E, st, z3.Or(g(FILL) == mb32(E, st, "cap"), g(EOF) != 0, g(ERR) != 0), "a batch is delivered short only at the end of a pass or after an error", I.line)
    ob(E, st, g(EOF) != 1, "at the end of a pass the data source is rewound", I.line)
    gs(E, st, HAVE, 0); gs(E, st, EOF, 0)
class Run(Contract):
    title = "DataReadTask::run: every record of every pass once and in order, in full batches, then the end"
    opts = {"no_merge": True, "timeout": 15000, "cand_timeout": 5000, "null_phi": lambda E: Ptr(E.mb)}
    ext = {DEQ: t_deq, ENQ: t_enq, "h_read": x_read, "h_rewind": x_rewind, "h_close": x_close}
    def target(self, mod): return "v_run"
    def setup(self, E, st, case):
        E.t = r = E.new_struct(st, "task", size(E, "DataReadTask")); rd = E.new_struct(st, "reader", 64); E.store(st, Ptr(rd), VTab("_ZTV11ProbeReader", 16), ir.PTR)
        o = off(E, "DataReadTask_reader"); E.fac = E.new_struct(st, "factory", 512); E.buf = E.new_struct(st, "buffer", 512)
        for k, x in ((o, rd), (o + 8, E.fac), (o + 16, E.buf)): E.store(st, Ptr(r, Off(k)), Ptr(x), ir.PTR)
        E.G = E.new_struct(st, "ghost", 72)
        for k in range(0, 72, 8): gs(E, st, k, 0)
        E.mb = E.new_struct(st, "batch", size(E, "MiniBatch")); E.points = E.new_struct(st, "points", None, keys=1, stride=size(E, "DataPoint"))
        E.store(st, Ptr(E.mb, Off(off(E, "MiniBatch_p"))), Ptr(E.points), ir.PTR)
        for n in ("n", "cap"): mb32(E, st, n)
        self.p = Ptr(r, Off(off(E, "DataReadTask_pass"))); return [Ptr(r)]
    def bind(self, E, st, a): return {"pass": E.load(st, self.p, ir.I32)}
    def pre(self, E, st, e): return []
    def modifies(self, E, st, e): return {E.G, E.mb, E.points, (E.t, self.p.off.c)}
    def loop(self, L):
        E = L.engine; h = L.head; g = lambda o: gl(E, h, o); P = E.env["pass"]
        o = [g(k) == v for k in (HAVE, EOF, ERR, EXIT, CLOSED, ENDED, BACK) for v in (0, 1)] + [g(FILL) == mb32(E, h, "n"), mb32(E, h, "cap") >= 1, g(FILL) >= 0, g(PASS) >= 0, g(PASS) + E.load(h, self.p, ir.I32) == P, g(PASS) < P, z3.Or(g(PASS) == 0, g(PASS) <= P), z3.Or(g(PASS) <= P, P < 0), g(FILL) <= mb32(E, h, "cap"), g(FILL) < mb32(E, h, "cap")]
        for v in L.phis.values():
            if isinstance(v, z3.ExprRef) and z3.is_bv(v):
                o += [v == 0, (v != 0) == (g(ERR) == 1), (v == 0) == (g(ERR) == 0)]
                if v.size() == 32: o += [v == g(FILL), v + g(PASS) == P, v == g(PASS)]
                elif v.size() == 64: o += [v == z3.SignExt(32, g(FILL))]
        return o
    def post(self, E, old, st, e, ret):
        g = lambda o: gl(E, st, o)
        return [("the end is announced", g(ENDED) == 1), ("the data source is closed", g(CLOSED) == 1), ("all passes were read, unless an error or the exit mark came", z3.Or(g(ERR) == 1, g(EXIT) == 1, g(PASS) == z3.If(e["pass"] < 0, bv(0, 32), e["pass"]))),
                ("the exit mark is kept for the other readers", g(BACK) == g(EXIT)), ("no batch is left open", g(HAVE) == 0)]
# ---- the iterator
NULLS, STARTED, KEPT, GAVE, TOOK = range(0, 40, 8)
def i_deq(E, st, a, I):
    """taking from the buffer gives any batch of the running reader or the mark of its end (C12)"""
    g = lambda o: gl(E, st, o)
    if not same(a[0], E.buf): bad(E, st, "batches are taken from the buffer", I.line)
    ob(E, st, z3.And(g(NULLS) == g(STARTED), g(TOOK) == 0, g(KEPT) == 0), "takes on only when the next reader was started", I.line)
    ob(E, st, g(GAVE) == (1 if E.op.prev else 0), "the used batch is given back before waiting for the next", I.line)
    s2 = st.copy(); gs(E, st, NULLS, g(NULLS) + 1); gs(E, s2, TOOK, 1)
    return [Outcome("ret", st, val=NULL), Outcome("ret", s2, val=Ptr(E.mb))]
def i_enq(E, st, a, I):
    """appending to a queue appends exactly that element (C12)"""
    g = lambda o: gl(E, st, o); v = E.load(st, a[1], ir.PTR)
    if same(a[0], E.fac):
        if not (E.op.prev and same(v, E.pv)): bad(E, st, "the used batch is given back", I.line)
        ob(E, st, g(GAVE) == 0, "the used batch is given back once", I.line); gs(E, st, GAVE, 1); return None
    if not same(a[0], E.buf) or not isnull(v): bad(E, st, "only the end mark is put into the buffer", I.line)
    ob(E, st, z3.And(g(KEPT) == 0, g(NULLS) == g(STARTED) + 1, E.env["idx"] + g(STARTED) + 1 == E.op.cnt32), "the end mark is kept when all readers have ended, once", I.line); gs(E, st, KEPT, 1)
def i_start(E, st, a, I):
    """starting a reader runs DataReadTask::run in its own thread"""
    g = lambda o: gl(E, st, o); p = a[0]
    if not (isinstance(p, Ptr) and p.r is E.tasks and p.key is not None and p.off.conc() and p.off.c == 0): bad(E, st, "a reader is started", I.line)
    ob(E, st, z3.And(p.key == z3.SignExt(32, E.env["idx"] + g(STARTED) + 1), g(NULLS) == g(STARTED) + 1, z3.ULT(p.key, E.op.cnt)), "the readers are started one after another, each when the one before has ended", I.line); gs(E, st, STARTED, g(STARTED) + 1)
class Next(Contract):
    title = "DataIter::Next: the readers one after another, then null for ever"; cases = ("first batch", "recycling the batch before")
    opts = {"no_merge": True, "timeout": 15000, "cand_timeout": 5000, "null_phi": lambda E: Ptr(E.mb)}
    ext = {DEQ: i_deq, ENQ: i_enq, START: i_start}
    def target(self, mod): return "v_next"
    def setup(self, E, st, case):
        E.op = self; self.prev = case.startswith("rec"); E.it = r = E.new_struct(st, "iter", size(E, "DataIter")); E.fac = E.buf = None
        self.cnt = z3.BitVec("readers", 64); self.cnt32 = z3.Extract(31, 0, self.cnt); E.tasks = E.new_struct(st, "task", None, keys=1); rs = E.new_struct(st, "readers", self.cnt, keys=1, stride=16); st.mem[rs] = {0: (PtrFam(E.tasks), ir.PTR)}
        o = off(E, "DataIter_readers"); E.store(st, Ptr(r, Off(o)), Ptr(rs), ir.PTR); E.store(st, Ptr(r, Off(o + 8)), Ptr(rs, Off(0, ((16, self.cnt),))), ir.PTR)
        E.fac, E.buf = Sub(r, off(E, "DataIter_factory")), Sub(r, off(E, "DataIter_buf"))
        E.G = E.new_struct(st, "ghost", 40)
        for k in range(0, 40, 8): gs(E, st, k, 0)
        E.mb = E.new_struct(st, "batch", size(E, "MiniBatch")); E.pv = E.new_struct(st, "used", size(E, "MiniBatch"))
        self.p = Ptr(r, Off(off(E, "DataIter_idx"))); return [Ptr(r), Ptr(E.pv) if self.prev else NULL]
    def bind(self, E, st, a): return {"idx": E.load(st, self.p, ir.I32)}
    def pre(self, E, st, e): return [("readers", z3.And(z3.ULT(self.cnt, bv(1 << 30)), e["idx"] >= -1, z3.Or(e["idx"] < self.cnt32, e["idx"] == -1)))]
    def modifies(self, E, st, e): return {E.G, (E.it, self.p.off.c)}
    def loop(self, L):
        E = L.engine; h = L.head; g = lambda o: gl(E, h, o); i = E.load(h, self.p, ir.I32)
        return [g(NULLS) == g(STARTED), g(TOOK) == 0, g(KEPT) == 0, g(GAVE) == (1 if self.prev else 0), i == E.env["idx"] + g(STARTED), i >= -1, z3.Or(i < self.cnt32, i == -1)]
    def post(self, E, old, st, e, ret):
        g = lambda o: gl(E, st, o); n = isnull(ret)
        return [("null is returned exactly when the last reader has ended", z3.And(g(KEPT) == (1 if n else 0), g(TOOK) == (0 if n else 1), z3.BoolVal(n or same(ret, E.mb)))), ("the running reader is the last started", E.load(st, self.p, ir.I32) == e["idx"] + g(STARTED)), ("the used batch was given back", g(GAVE) == (1 if self.prev else 0))]
class Sub:
    def __init__(s, r, c): s.r = r; s.c = c
def contracts_next(): return [Next()]
def contracts_run(): return [Run()]
