"""Contracts, the registry the executor looks callees up in, and the driver that verifies one contract."""
import re, time, os, subprocess, tempfile, z3, traceback
from . import llvmir as ir
from .engine import *
from .flow import Flow

class Contract:
    title = "?"
    floats = FloatUF
    opts = {}
    cases = ("",)
    alternatives = ()          # outcomes a call may have (each its own state), e.g. null / non-null result
    assumed = False            # contract of something outside the verified code: used, not verified
    weight = 1                 # scheduling hint
    optional = False           # helper functions: nothing to verify when the code no longer has them
    def target(self, mod): raise NotImplementedError      # mangled name of the function verified
    def setup(self, E, st, case): raise NotImplementedError
    def bind(self, E, st, args): return {}
    def pre(self, E, st, env): return []
    def throws(self, E, st, env): return None
    def modifies(self, E, st, env): return set()
    def havoc(self, E, st, env, retty): raise Unsupported("contract %s cannot be used at a call" % self.title)
    def post(self, E, old, st, env, ret): return []
    def loop(self, L): return []
    def late(self, E, old, st, env, ret): return []

class Registry:
    def __init__(self):
        self.byname = {}; self.virt = {}; self.ext = {}; self.ext_re = []
    def add(self, mod, c):
        n = c.target(mod)
        if n is not None: self.byname[n] = c
        return n
    def lookup(self, name): return self.byname.get(name)
    def virtual(self, cls, off): return self.virt.get((cls, off))
    def extern(self, name):
        h = self.ext.get(name)
        if h: return h
        for rx, h in self.ext_re:
            if rx.match(name): return h
        return None

class Result:
    def __init__(s, title, case): s.title = title; s.case = case; s.obls = []; s.error = None; s.n_inv = 0; s.t = 0; s.vacuous = False; s.assumed = set(); s.used = set(); s.solver_time = 0; s.func = None; s.backends = {}; s.inlined = set()
    @property
    def ok(s): return s.error is None and not s.vacuous and all(o["result"] == "proved" for o in s.obls) and len(s.obls) > 0

def unchanged(E, old, new, r, skip=()):
    """list of (name, formula) saying region r has the same contents"""
    a, b = old.mem[r], new.mem.get(r)
    if a is b: return []
    if isinstance(a, ArrC):
        out = []
        if not a.n.eq(b.n): out.append(("%s keeps its length" % r.name, a.n == b.n))
        if not a.a.eq(b.a) and "a" not in skip:
            ar = 2 if r.keys else 1
            js = [z3.BitVec("fj%d" % i, 64) for i in range(ar)]
            out.append(("%s is not written" % r.name, z3.ForAll(js, z3.Select(a.a, *js) == z3.Select(b.a, *js))))
        return out
    if isinstance(a, dict):
        out = []
        for k in b:
            if k == "zero" or k in skip: continue
            if k not in a:
                # first touched during the call: it was read or written; a written cell is in E.wcells
                if (r, k) in E.wcells: out.append(("field %s+%s is not written" % (r.name, k), FALSE))
                continue
            x, y = a[k][0], b[k][0]
            if same_val(x, y): continue
            if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and x.sort().eq(y.sort()):
                out.append(("field %s+%s is not written" % (r.name, k), x == y if not z3.is_array(x) else z3.ForAll([z3.BitVec("fj", 64)], z3.Select(x, z3.BitVec("fj", 64)) == z3.Select(y, z3.BitVec("fj", 64)))))
            else: out.append(("field %s+%s is not written" % (r.name, k), FALSE))
        return out
    return []

def verify(c, mod, reg, case, budget=240):
    """symbolically execute the target of contract c and discharge everything; runs in a worker process"""
    R = Result(c.title, case); t0 = time.time()
    E = None
    if hasattr(c, "direct"):
        R.func = "(lemmas)"
        for nm, r, be, t in c.direct():
            R.obls.append({"name": nm, "line": 0, "kind": "lemma", "result": r, "backend": be, "t": round(t, 3), "model": None}); R.backends[be] = R.backends.get(be, 0) + 1; R.solver_time += t
        R.t = time.time() - t0
        return R
    try:
        name = c.target(mod)
        if name is None or name not in mod.defined: raise Unsupported("function for contract '%s' not found" % c.title)
        R.func = ir.demangle([name])[name]
        E = Flow(mod, reg, c.floats, c, dict(c.opts)); E.deadline = t0 + budget
        E.wcells = set()
        E.writes = E.wcells
        st = State()
        E.probe += 1          # reads made while stating the contract are part of the precondition
        args = c.setup(E, st, case)
        env = c.bind(E, st, args)
        E.probe -= 1
        for nm, f in c.pre(E, st, env): st.assume(f)
        old = st.copy()
        E.old = old; E.env = env
        # vacuity: the precondition must not be contradictory
        r, _ = E.prove(st.pc, FALSE, timeout=1500)
        if r == "proved": R.vacuous = True; R.error = "precondition is contradictory"; return R
        saved = reg.byname.pop(name, None) if not getattr(c, "recursive", False) else None
        try:
            outs = E.run_function(name, st.copy(), args)      # env keeps reading the pre-state
        finally:
            if saved is not None: reg.byname[name] = saved
        nret = 0; covered = False
        for o in outs:
            if o.kind == "throw":
                th = c.throws(E, old, env)
                E.oblige(o.st, th if th is not None else FALSE, "exception", "thrown only when the contract says so", o.line)
                covered = covered or c.__dict__.get("throws_only")
                continue
            if o.kind != "ret": raise Unsupported("outcome %s" % o.kind)
            nret += 1
            s = o.st
            th = c.throws(E, old, env)
            if th is not None: E.oblige(s, z3.Not(th), "exception", "thrown when the contract says so", o.line)
            allowed = c.modifies(E, old, env)
            for nm, f in c.post(E, old, s, env, o.val):
                E.obls.append(Obligation("post: %s" % nm, list(s.pc), f, o.line, "post", len(E.defs)))
            for rgn in old.mem:
                if rgn in allowed or rgn in E.greg.values() and rgn.const: continue
                skip = {x[1] for x in allowed if isinstance(x, tuple) and x[0] is rgn}
                if rgn in s.freed: E.obls.append(Obligation("frame: %s is not released" % rgn.name, list(s.pc), FALSE, o.line, "frame", len(E.defs))); continue
                for nm, f in unchanged(E, old, s, rgn, skip):
                    E.obls.append(Obligation("frame: %s" % nm, list(s.pc), f, o.line, "frame", len(E.defs)))
            # vacuity of the end state
            if not covered:
                r, _ = E.prove(s.pc, FALSE, timeout=1500)
                if r != "proved": covered = True
        if not covered and not getattr(c, "may_not_return", False):
            R.vacuous = True; R.error = "no reachable return"
        R.n_inv = E.n_inv
        discharge(E, R, c, budget, t0)
    except Unsupported as e:
        R.error = "unsupported: %s" % e
    except ShapeMismatch as e:
        R.error = "unsupported: shape %s" % e
    except z3.Z3Exception as e:
        R.error = "unsupported: z3 %s" % e
        if os.environ.get("IRV_TRACE"): traceback.print_exc()
    except RecursionError:
        R.error = "unsupported: recursion"
    except Exception as e:
        R.error = "unsupported: internal %s: %s" % (type(e).__name__, e)
        if os.environ.get("IRV_TRACE"): traceback.print_exc()
    finally:
        R.t = time.time() - t0
        if E is not None:
            R.assumed = set(E.assumed); R.used = set(E.used_contracts); R.solver_time = E.solver_time; R.inlined = set(E.inlined)
    return R

def smt2(fs):
    s = z3.Solver(); s.add(*fs)
    return s.to_smt2()

def external(fs, secs):
    """second opinions on an obligation z3 (python API) could not decide: cvc5, z3 4.8"""
    txt = smt2(fs)
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + txt if "(set-logic" not in txt else txt); p = f.name
    try:
        for nm, cmd in (("z3-4.8.12", ["z3", "-T:%d" % secs, p]), ("cvc5", ["cvc5", "--tlimit=%d" % (secs * 1000), p])):
            try: out = subprocess.run(cmd, capture_output=True, text=True, timeout=secs + 5).stdout
            except Exception: continue
            w = out.strip().split("\n")[0] if out.strip() else ""
            if w == "unsat": return nm, "proved"
            if w == "sat": return nm, "refuted"
    finally: os.unlink(p)
    return None, "unknown"

def discharge(E, R, c, budget, t0):
    E.deadline = None
    to = c.opts.get("timeout", 10000)
    for o in E.obls:
        t1 = time.time()
        g = simp(o.goal)
        if z3.is_true(g): r, m, be = "proved", None, "simplifier"
        else:
            fs = list(E.defs) + o.pc + [z3.Not(o.goal)]
            left = max(2000, int((t0 + budget - time.time()) * 1000))
            rr, m = solve(fs, min(to, left))
            r = VERDICT[repr(rr)]; be = "z3-py"
            if r == "unknown" and c.opts.get("mbqi_retry", True):
                s = z3.Solver(); s.set("timeout", min(to, left)); s.add(*fs)
                rr = s.check()
                if rr == z3.unsat: r = "proved"
                elif rr == z3.sat: r = "refuted"; m = s.model()
            if r == "unknown" and c.opts.get("external", True) and time.time() < t0 + budget:
                b2, r2 = external(fs, 10)
                if r2 != "unknown": be, r = b2, r2
        E.solver_time += time.time() - t1
        R.backends[be] = R.backends.get(be, 0) + 1
        R.obls.append({"name": o.name, "line": o.line, "kind": o.kind, "result": r, "backend": be, "t": round(time.time() - t1, 3),
                       "model": (str(m)[:3000] if r == "refuted" and m is not None else (str(m)[:200] if m is not None else None))})
