"""Floats as uninterpreted values with lemmas of IEEE arithmetic. Each lemma is stated once over an abstract algebra; the
same statement is an axiom of the verification conditions and an obligation in the floating-point theory (prove_lemmas)."""
import z3
from .contract import Contract
from .engine import FloatUF, FloatIEEE, TRUE, FALSE

B = z3.BoolSort()
class Alg:
    """the operations lemmas are written in, over floats class F at one size"""
    def __init__(s, F, size): s.F = F; s.n = size; s.sort = F.sort(size)
    def add(s, a, b): return s.F.bin("fadd", a, b)
    def sub(s, a, b): return s.F.bin("fsub", a, b)
    def mul(s, a, b): return s.F.bin("fmul", a, b)
    def div(s, a, b): return s.F.bin("fdiv", a, b)
    def neg(s, a): return s.F.un("fneg", a)
    def lt(s, a, b): return s.F.cmp("olt", a, b)
    def le(s, a, b): return s.F.cmp("ole", a, b)
    def eq(s, a, b): return s.F.cmp("oeq", a, b)
    def nan(s, a): return s.F.cmp("uno", a, a)
    def fin(s, a):
        if s.F.mode == "ieee": return z3.Not(z3.Or(z3.fpIsNaN(a), z3.fpIsInf(a)))
        return s.F.fn("ffin", s.sort, B)(a)
    def c(s, x): return s.F.const(x, s.n)
    def trunc(s, a): return s.F.conv("fptrunc", a, s.F.sort(4))
    def ext(s, a): return s.F.conv("fpext", a, s.F.sort(8))
FMAX = 3.4028234663852886e38
CONSTS = [0.0, -0.0, 1.0, -1.0, 2.0, 0.5, 100.0, -100.0, 1e-12, FMAX, -FMAX]
nt = z3.Not
def lemmas(A):
    """(name, number of variables, body(vars), patterns(vars))"""
    L = []
    def l(name, n, body, *pats): L.append((name, n, body, pats))
    L1 = A.c(1.0); L0 = A.c(0.0)
    l("lt implies le and no nan", 2, lambda a, b: z3.Implies(A.lt(a, b), z3.And(A.le(a, b), nt(A.le(b, a)), nt(A.nan(a)), nt(A.nan(b)))), lambda a, b: [A.lt(a, b)])
    l("le implies no nan", 2, lambda a, b: z3.Implies(A.le(a, b), z3.And(nt(A.nan(a)), nt(A.nan(b)))), lambda a, b: [A.le(a, b)])
    l("not lt is ge", 2, lambda a, b: z3.Implies(z3.And(nt(A.nan(a)), nt(A.nan(b)), nt(A.lt(a, b))), A.le(b, a)), lambda a, b: [A.lt(a, b)])
    l("not le is gt", 2, lambda a, b: z3.Implies(z3.And(nt(A.nan(a)), nt(A.nan(b)), nt(A.le(a, b))), A.lt(b, a)), lambda a, b: [A.le(a, b)])
    l("eq is le both ways", 2, lambda a, b: A.eq(a, b) == z3.And(A.le(a, b), A.le(b, a)), lambda a, b: [A.eq(a, b)])
    l("le is transitive", 3, lambda a, b, c: z3.Implies(z3.And(A.le(a, b), A.le(b, c)), A.le(a, c)), lambda a, b, c: [A.le(a, b), A.le(b, c)])
    l("le, lt is transitive", 3, lambda a, b, c: z3.Implies(z3.And(A.le(a, b), A.lt(b, c)), A.le(a, c)), lambda a, b, c: [A.le(a, b), A.lt(b, c)])
    l("lt, le is transitive", 3, lambda a, b, c: z3.Implies(z3.And(A.lt(a, b), A.le(b, c)), A.lt(a, c)), lambda a, b, c: [A.lt(a, b), A.le(b, c)])
    l("finite is not nan", 1, lambda a: z3.Implies(A.fin(a), nt(A.nan(a))), lambda a: [A.fin(a)])
    l("finite is reflexive", 1, lambda a: z3.Implies(nt(A.nan(a)), A.le(a, a)), lambda a: [A.fin(a)], lambda a: [A.nan(a)])
    l("one plus not negative", 1, lambda a: z3.Implies(A.le(L0, a), A.le(L1, A.add(L1, a))), lambda a: [A.add(L1, a)])
    l("nan + finite", 2, lambda a, b: z3.Implies(z3.And(A.fin(b), nt(A.nan(a))), nt(A.nan(A.add(a, b)))), lambda a, b: [A.add(a, b)])
    l("finite - finite", 2, lambda a, b: z3.Implies(z3.And(A.fin(b), nt(A.nan(a))), nt(A.nan(A.sub(a, b)))), lambda a, b: [A.sub(a, b)])
    l("finite - not nan", 2, lambda a, b: z3.Implies(z3.And(A.fin(a), nt(A.nan(b))), nt(A.nan(A.sub(a, b)))), lambda a, b: [A.sub(a, b)])
    if A.n == 4: l("quotient", 2, lambda a, b: z3.Implies(z3.And(nt(A.nan(a)), A.fin(b), A.le(L1, b)), nt(A.nan(A.div(a, b)))), lambda a, b: [A.div(a, b)])
    l("counting up", 1, lambda a: z3.Implies(z3.And(A.fin(a), A.le(L0, a)), z3.And(A.fin(A.add(a, L1)), A.le(L1, A.add(a, L1)), z3.Implies(A.le(L1, a), A.le(A.c(2.0), A.add(a, L1))))), lambda a: [A.add(a, L1)])
    l("counting down", 1, lambda a: z3.Implies(z3.And(A.fin(a), A.le(A.c(2.0), a)), z3.And(A.fin(A.sub(a, L1)), A.le(L1, A.sub(a, L1)))), lambda a: [A.sub(a, L1)])
    l("square", 1, lambda a: z3.Implies(nt(A.nan(a)), z3.And(A.le(L0, A.mul(a, a)))), lambda a: [A.mul(a, a)])
    l("half", 1, lambda a: z3.Implies(A.le(L0, a), A.le(L0, A.mul(a, A.c(0.5)))), lambda a: [A.mul(a, A.c(0.5))])
    l("negation", 1, lambda a: A.nan(A.neg(a)) == A.nan(a), lambda a: [A.neg(a)])
    l("finite negation", 1, lambda a: A.fin(A.neg(a)) == A.fin(a), lambda a: [A.neg(a)])
    l("times one", 1, lambda a: z3.And(A.mul(a, L1) == a, A.mul(a, A.c(-1.0)) == A.neg(a)), lambda a: [A.mul(a, L1)], lambda a: [A.mul(a, A.c(-1.0))])
    l("one minus one", 0, lambda: z3.And(A.sub(L1, L1) == L0, A.add(A.c(1e-12), L1) == L1 if A.n == 4 else TRUE, A.neg(L1) == A.c(-1.0), A.neg(A.c(-1.0)) == L1, A.neg(L0) == A.c(-0.0), A.neg(A.c(-0.0)) == L0))
    l("constants", 0, lambda: z3.And(*([A.fin(A.c(x)) for x in CONSTS] + [A.le(L0, A.c(x)) for x in CONSTS if x >= 0] + [A.le(L1, L1), A.le(L1, A.c(2.0)), nt(A.lt(L0, L0)), A.lt(L0, L1), nt(A.le(A.c(2.0), L1)), nt(A.le(L1, A.c(1e-12)))])))
    l("above a hundred", 1, lambda a: z3.Implies(A.lt(A.c(100.0), a), z3.And(A.le(L0, a), nt(A.lt(a, A.c(-100.0))))), lambda a: [A.lt(A.c(100.0), a)])
    l("two is above one", 1, lambda a: z3.Implies(A.le(A.c(2.0), a), A.le(L1, a)), lambda a: [A.le(A.c(2.0), a)])
    l("positive or not", 1, lambda a: z3.Implies(nt(A.nan(a)), A.lt(L0, a) == nt(A.le(a, L0))), lambda a: [A.le(a, L0)])
    l("one is above zero", 1, lambda a: z3.Implies(A.le(L1, a), z3.And(A.lt(L0, a), nt(A.le(a, L0)))), lambda a: [A.le(L1, a)])
    if A.n == 8: l("truncation keeps sign and number", 1, lambda a: z3.Implies(A.le(L0, a), A.F.cmp("ole", A.F.const(0.0, 4), A.trunc(a))), lambda a: [A.trunc(a)])
    else: l("extension keeps numbers", 1, lambda a: z3.And(A.F.cmp("uno", A.ext(a), A.ext(a)) == A.nan(a)), lambda a: [A.ext(a)])
    return L
class FloatLem(FloatUF):
    drop = ("transitive",)      # lemmas not used as axioms (by substring of the name)
    sizes = (4,)
    @classmethod
    def comm_axioms(c):
        out = list(FloatUF.comm_axioms())
        for n in c.sizes:
            A = Alg(c, n)
            for name, k, body, pats in lemmas(A):
                if any(d in name for d in c.drop): continue
                vs = [z3.Const("fl%d" % i, A.sort) for i in range(k)]
                if k == 0: out.append(body())
                else: out.append(z3.ForAll(vs, body(*vs), patterns=[z3.MultiPattern(*p(*vs)) if len(p(*vs)) > 1 else p(*vs)[0] for p in pats]))
        return out
class FloatLemD(FloatLem): sizes = (4, 8)
class FloatLemT(FloatLem): drop = ("le is transitive", "lt, le is", "not le is gt")
class FloatLemTD(FloatLem): drop = ("le is transitive", "lt, le is", "not le is gt"); sizes = (4, 8)
def prove_lemmas(secs=60):
    """discharge every lemma in the floating-point theory; returns list of (name, result, seconds)"""
    import time, subprocess, tempfile, os
    out = []
    for n in (4, 8):
        A = Alg(FloatIEEE, n)
        for name, k, body, _ in lemmas(A):
            vs = [z3.Const("fl%d" % i, A.sort) for i in range(k)]
            t = time.time()
            s = z3.Solver(); s.set("timeout", 3000); s.add(z3.Not(body(*vs))); r = repr(s.check())
            be = "z3-py"
            if r == "unknown":
                txt = s.to_smt2()
                with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f: f.write("(set-logic ALL)\n" + txt); p = f.name
                try: w = subprocess.run(["cvc5", "--tlimit=%d" % (secs * 1000), p], capture_output=True, text=True, timeout=secs + 5).stdout.strip().split("\n")[0]
                except Exception: w = ""
                os.unlink(p)
                if w in ("sat", "unsat"): r = w; be = "cvc5"
            out.append(("IEEE%d: %s" % (n * 8, name), {"unsat": "proved", "sat": "refuted"}.get(r, "unknown"), be, time.time() - t))
    return out

class IEEELemmas(Contract):
    title = "IEEE arithmetic lemmas"
    def target(self, mod): return None
    def direct(self): return prove_lemmas()
