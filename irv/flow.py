"""Control flow of irv: blocks, merging, loops with invariants, calls."""
import z3, time, re
from . import llvmir as ir
from .engine import *

class Flow(Engine):
    # ------------------------------------------------------------ merging
    def merge_content(self, c, a, b, r):
        if a is b: return a
        if type(a) is not type(b): raise NoMerge()
        if isinstance(a, ArrC):
            aa = a.a if a.a.eq(b.a) else z3.If(c, a.a, b.a)
            nn = a.n if a.n.eq(b.n) else z3.If(c, a.n, b.n)
            return ArrC(aa, nn)
        if isinstance(a, dict):
            d = {}
            for k in set(a) | set(b):
                if k not in a or k not in b:
                    if k == "zero": raise Unsupported("merge of zeroed memory")
                    x = a.get(k) or b.get(k)
                    # a cell only read or written on one side: unknown on the other
                    if r.keys or r.stride: raise NoMerge()
                    o = (self.fresh(x[1], "m") if x[1].k != "ptr" else None, x[1])
                    if o[0] is None: raise NoMerge()
                    y = (a.get(k) or o, b.get(k) or o)
                else: y = (a[k], b[k])
                if k == "zero":
                    if y[0] != y[1]: raise NoMerge()
                    d[k] = y[0]; continue
                if same_val(y[0][0], y[1][0]): d[k] = y[0]; continue
                if y[0][1].size != y[1][1].size: raise NoMerge()
                try: d[k] = (self.ite(c, y[0][0], y[1][0]), y[0][1])
                except Unsupported: raise NoMerge()
                except z3.Z3Exception: raise NoMerge()
            return d
        if isinstance(a, tuple):
            if a == b: return a
            raise NoMerge()
        raise NoMerge()

    def try_merge(self, s1, s2, live):
        if self.opts.get("no_merge"): return None
        n = 0
        m = min(len(s1.pc), len(s2.pc))
        while n < m and s1.pc[n].eq(s2.pc[n]): n += 1
        r1, r2 = s1.pc[n:], s2.pc[n:]
        if any(has_quant(f) for f in r1 + r2): return None
        if s1.ghost != s2.ghost:
            for k in set(s1.ghost) | set(s2.ghost):
                if not same_val(s1.ghost.get(k), s2.ghost.get(k)) and s1.ghost.get(k) is not s2.ghost.get(k): return None
        c1, c2 = conj(r1), conj(r2)
        st = State(); st.pc = s1.pc[:n]; st.ghost = dict(s1.ghost)
        try:
            for v in s1.env:
                if v in s2.env:
                    a, b = s1.env[v], s2.env[v]
                    if same_val(a, b): st.env[v] = a
                    elif v in live:
                        st.env[v] = self.ite(c1, a, b)
                        if isinstance(st.env[v], PtrU) and not self.opts.get("ptr_union"): return None
            for r in s1.mem:
                if r in s2.mem:
                    st.mem[r] = self.merge_content(c1, s1.mem[r], s2.mem[r], r)
                else: st.mem[r] = s1.mem[r]
            for r in s2.mem:
                if r not in st.mem: st.mem[r] = s2.mem[r]
            for r in st.mem:
                c = st.mem[r]
                if isinstance(c, dict) and not self.opts.get("ptr_union"):
                    for k, x in c.items():
                        if k != "zero" and isinstance(x[0], PtrU): return None
            if s1.freed != s2.freed:
                d = s1.freed ^ s2.freed
                if any(not r.local for r in d if r in s1.mem and r in s2.mem): return None
        except (NoMerge, Unsupported):
            return None
        st.freed = s1.freed | s2.freed
        g = simp(z3.Or(c1, c2))
        if not z3.is_true(g): st.pc.append(z3.Or(c1, c2))
        return st

    # ------------------------------------------------------------ blocks
    def live_in(self, fn):
        if hasattr(fn, "live"): return fn.live
        use = {}; de = {}
        for b in fn.blocks:
            u = set(); d = set()
            for v, i in b.insts:
                if i.op != "phi":
                    for o in i.ops:
                        if isinstance(o, ir.Val) and o.kind in ("inst", "arg") and o not in d: u.add(o)
                    cal = i.attr.get("callee")
                    if cal is not None and cal.kind in ("inst", "arg") and cal not in d: u.add(cal)
                d.add(v)
            use[b] = u; de[b] = d
        live = {b: set(use[b]) for b in fn.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.blocks):
                n = set(use[b])
                for s in b.succs:
                    n |= (live[s] - de[b])
                    for v, i in s.insts:
                        if i.op != "phi": break
                        for o, p in i.ops:
                            if p is b and o.kind in ("inst", "arg") and o not in de[b]: n.add(o)
                if n != live[b]: live[b] = n; ch = True
        fn.live = live
        fn.phis = {b: [v for v, i in b.insts if i.op == "phi"] for b in fn.blocks}
        return live

    def run_function(self, name, st, args):
        fn = self.mod.func(name)
        analyse(fn); self.live_in(fn)
        self.depth += 1
        if self.depth > 12: raise Unsupported("inlining depth")
        saved = st.env; st.env = {}
        for a, v in zip(fn.args, args): st.env[a] = v
        outs = self.run_region(fn, set(fn.rpo), fn.blocks[0], [st])
        self.depth -= 1
        for o in outs: o.st.env = dict(saved)
        return outs

    def edge(self, st, b, s):
        """evaluate the phis of s for the edge b->s"""
        upd = []
        for v, i in s.insts:
            if i.op != "phi": break
            for o, p in i.ops:
                if p is b: upd.append((v, self.val(st, o))); break
        for v, x in upd: st.env[v] = x

    def run_region(self, fn, blocks, entry, states, header=None):
        """symbolically execute the acyclic region `blocks` (inner loops collapsed) from `entry`.
        Outcomes: ret, throw, exit (edge leaving blocks), back (edge to header)."""
        outs = []
        pend = {entry: [(s, None) for s in states]}
        first = True
        while pend:
            self.tick()
            b = min(pend, key=lambda x: fn.idx[x])
            items = [s for s, _ in pend.pop(b)]
            if len(items) > 1:
                live = fn.live[b] | set(fn.phis[b])
                merged = []
                for s in items:
                    for i, t in enumerate(merged):
                        m = self.try_merge(t, s, live)
                        if m is not None: merged[i] = m; break
                    else: merged.append(s)
                items = merged
            if len(items) > self.opts.get("max_states", 400): raise Unsupported("too many paths")
            for s in items:
                if b in fn.loops and not (b is header and first):
                    evs = self.do_loop(fn, b, s)
                else:
                    evs = self.exec_block(fn, b, s)
                for ev in evs:
                    if ev.kind == "edge":
                        t = ev.to
                        if t in fn.doomed:
                            k = fn.doomed[t]
                            if k == "throw": outs.append(Outcome("throw", ev.st, line=ev.line))
                            elif k.startswith("abort"):
                                self.oblige(ev.st, FALSE, "abort", "%s is not reached" % k[6:], ev.line)
                            else: self.oblige(ev.st, FALSE, "unreachable", "unreachable code is not reached", ev.line)
                            continue
                        if t is header: outs.append(Outcome("back", ev.st, frm=ev.frm)); continue
                        if t not in blocks: outs.append(Outcome("exit", ev.st, frm=ev.frm, to=t)); continue
                        pend.setdefault(t, []).append((ev.st, ev.frm))
                    else: outs.append(ev)
            first = False
        return outs

    def tick(self):
        if self.deadline and time.time() > self.deadline: raise Unsupported("time budget exhausted")

    def exec_block(self, fn, b, st, start=0):
        n = len(b.insts); i = start
        while i < n:
            v, I = b.insts[i]; op = I.op
            if op == "phi": i += 1; continue
            try:
                if op in ("call", "invoke"):
                    res = self.call(st, v, I)
                    if res is not None:       # several outcomes
                        outs = []
                        for o in res:
                            if o.kind == "throw": outs.append(o); continue
                            if o.kind != "ret": raise Unsupported("call outcome")
                            if I.ty.k != "void": o.st.env[v] = o.val
                            if op == "invoke":
                                outs.extend(self.take(o.st, b, I.attr["succ"][0], I.line))
                            else: outs.extend(self.exec_block(fn, b, o.st, i + 1))
                        return outs
                    if op == "invoke": return self.take(st, b, I.attr["succ"][0], I.line)
                    i += 1; continue
                if op == "br":
                    su = I.attr["succ"]
                    if not I.ops: return self.take(st, b, su[0], I.line)
                    c = self.val(st, I.ops[0]); cs = simp(c)
                    if z3.is_true(cs): return self.take(st, b, su[0], I.line)
                    if z3.is_false(cs): return self.take(st, b, su[1], I.line)
                    if self.branch_atoms is not None: self.branch_atoms.append(c)
                    if su[0] is su[1]: return self.take(st, b, su[0], I.line)
                    res = []
                    nc = z3.Not(c)
                    f1 = self.feasible(st, c)
                    f2 = self.feasible(st, nc) if f1 else True
                    if f1 and f2:
                        s2 = st.copy(); s2.assume(nc); st.assume(c)
                        return self.take(st, b, su[0], I.line) + self.take(s2, b, su[1], I.line)
                    if f1: st.assume(c); return self.take(st, b, su[0], I.line)
                    st.assume(nc); return self.take(st, b, su[1], I.line)
                if op == "switch":
                    x = self.val(st, I.ops[0]); su = I.attr["succ"]; res = []; neg = []
                    for cv, t in zip(I.attr["cases"], su[1:]):
                        c = simp(x == self.const(cv))
                        if z3.is_false(c): continue
                        if self.feasible(st, c):
                            s2 = st.copy(); s2.assume(c); res += self.take(s2, b, t, I.line)
                        neg.append(z3.Not(c))
                    s2 = st
                    for f in neg: s2.assume(f)
                    if self.feasible(s2, TRUE if not neg else conj(neg)): res += self.take(s2, b, su[0], I.line)
                    return res
                if op == "ret":
                    return [Outcome("ret", st, val=self.val(st, I.ops[0]) if I.ops else None, line=I.line)]
                if op == "unreachable":
                    self.oblige(st, FALSE, "unreachable", "unreachable code is not reached", I.line); return []
                self.exec_inst(st, v, I)
            except PathEnd:
                return []
            i += 1
        raise Unsupported("block without terminator")
    def take(self, st, b, s, line):
        try: self.edge(st, b, s)
        except PathEnd: return []
        return [Outcome("edge", st, frm=b, to=s, line=line)]

    # ------------------------------------------------------------ loops
    def strides(self, fn, hdr, body):
        res = {}
        latches = [p for p in hdr.preds if p in body]
        for v, i in hdr.insts:
            if i.op != "phi": break
            st = None; ok = True
            for o, p in i.ops:
                if p not in latches: continue
                d = self.delta(o, v, 0)
                if d is None or (st is not None and d != st): ok = False; break
                st = d
            if ok and st is not None: res[v] = st
        return res
    def delta(self, o, phi, depth):
        if o is phi: return 0
        if o.kind != "inst" or depth > 6: return None
        I = o.x
        if I.op == "add":
            for x, y in ((0, 1), (1, 0)):
                if I.ops[y].kind == "int":
                    d = self.delta(I.ops[x], phi, depth + 1)
                    if d is not None:
                        c = I.ops[y].x; n = I.ty.n
                        if c >= 1 << (n - 1): c -= 1 << n
                        return d + c
            return None
        if I.op == "gep" and len(I.ops) == 2 and I.ops[1].kind == "int":
            d = self.delta(I.ops[0], phi, depth + 1)
            if d is not None:
                c = I.ops[1].x; n = I.ops[1].ty.n
                if c >= 1 << (n - 1): c -= 1 << n
                return d + c * I.attr["ty"].size
        return None

    def do_loop(self, fn, hdr, st):
        """cut the loop at hdr with invariants; returns the events leaving the loop"""
        body = fn.loops[hdr]
        lim = self.opts.get("unroll_inner") if any(hdr in b for h, b in fn.loops.items() if h is not hdr) or self.depth > 1 else self.opts.get("unroll")
        if lim: return self.unroll(fn, hdr, st, body, lim)
        strides = self.strides(fn, hdr, body)
        lim = self.const_trip(fn, hdr, st, body, strides)
        if lim: return self.unroll(fn, hdr, st, body, lim)
        k = z3.BitVec(self.name("k"), 64)
        entry_env = {v: st.env[v] for v in fn.phis[hdr]}
        syms = []            # (symbol, entry value)   z3 terms
        H = st.copy()
        tracked = []         # how to read the back-edge value: ("phi", v) / ("cell", r, off) / ("arr", r) ...
        def hav_phi(v):
            e = entry_env[v]
            if v in strides:
                s = strides[v]
                if isinstance(e, Ptr): return Ptr(e.r, e.off.add(Off(0, ((s, k),)) if s else Off()), e.key)
                if isinstance(e, PtrU): raise Unsupported("pointer union in loop")
                n = e.size()
                if s == 0: return e
                kk = k if n == 64 else z3.Extract(n - 1, 0, k)
                return simp(e + kk * bv(s, n))
            if isinstance(e, Ptr):
                if e.r is None:
                    if "null_phi" not in self.opts: raise Unsupported("null loop pointer")
                    x = z3.Bool(self.name("isnull")); tgt = self.opts["null_phi"](self)
                    syms.append((x, TRUE, ("nullphi", v, tgt)))
                    return PtrU([(x, NULL), (z3.Not(x), tgt)])
                u = e.r.elem.size if e.r.kind == "array" else (e.r.stride or 1)
                if not e.off.divisible(u): u = 1
                x = z3.BitVec(self.name("p"), 64)
                syms.append((x, e.off.div(u), ("ptrphi", v, u)))
                return Ptr(e.r, Off(0, ((u, x),)), e.key)
            if isinstance(e, PInt): e = self.toint(e)
            if not isinstance(e, z3.ExprRef): raise Unsupported("loop variable %r" % (e,))
            x = z3.Const(self.name("phi"), e.sort())
            syms.append((x, e, ("phi", v)))
            return x
        for v in fn.phis[hdr]: H.env[v] = hav_phi(v)
        phisyms = list(syms)
        # ---- which memory does the body change?
        mod = set(); atoms = []
        rounds = 0
        while True:
            rounds += 1
            if rounds > 8: raise Unsupported("loop effects do not stabilise")
            H1 = H.copy(); msyms = self.havoc_mem(st, H1, mod)
            sw, sa, so, sn, sk = self.writes, self.branch_atoms, self.obls, self.n_inv, list(self.kstack)
            nd = len(self.defs)
            self.writes = set(); self.branch_atoms = []; self.obls = []; self.probe += 1; self.kstack.append(k)
            try: pouts = self.run_region(fn, body, hdr, [H1.copy()], header=hdr)
            finally:
                w, at = self.writes, self.branch_atoms
                self.writes, self.branch_atoms, self.obls, self.n_inv, self.kstack = sw, sa, so, sn, sk; self.probe -= 1
            new = {x for x in w if x[0] in st.mem and not (x[0].local and x[0] not in st.mem)} - mod
            if not new: break
            mod |= new
        if self.writes is not None: self.writes |= mod
        backs = [o for o in pouts if o.kind == "back"]
        # ---- candidate invariants
        cands = []; ghost = []      # ghost: unfoldings of recursive specification functions, assumed
        allsyms = [(k, bv(0), ("k",))] + phisyms + msyms
        symset = {s.decl().name() for s, _, _ in allsyms}
        cands += self.cand_bounds(at, symset, k, strides, entry_env, H1, fn, hdr)
        if len(backs) >= 1:
            cands += self.cand_maps(st, H1, backs, msyms, k, symset)
        cands += self.cand_same(allsyms, st)
        L = Loop(); L.k = k; L.ks = self.kstack + [k]; L.entry = st; L.head = H1; L.phis = {v: H1.env[v] for v in fn.phis[hdr]}
        L.phi_entry = entry_env; L.fn = fn; L.hdr = hdr; L.engine = self; L.strides = strides; L.depth = len(self.kstack)
        L.accs = [(s, e) for s, e, t in phisyms]
        L.line = next((i.line for v, i in hdr.insts if i.line), 0)
        L.atoms = at; L.syms = allsyms
        if self.spec is not None and hasattr(self.spec, "loop"):
            for c in self.spec.loop(L) or []:
                if isinstance(c, tuple) and c[0] == "ghost": ghost.append(c[1])
                else: cands.append(c if isinstance(c, tuple) else ("spec", c))
        # ---- entry
        kept = []
        seen = set()
        esub = [(s, e) for s, e, _ in allsyms]
        for tag, f in cands:
            if f.get_id() in seen: continue
            seen.add(f.get_id())
            g = z3.substitute(f, *esub)
            r, _ = self.prove(st.pc + [z3.substitute(f, *esub) for f in ghost], g, timeout=self.opts.get("cand_timeout", 2000))
            if r == "proved": kept.append((tag, f))
            elif self.opts.get("debug"): print("  [loop line %d] entry drops %s %s" % (L.line, tag, str(f)[:300]))
        # ---- Houdini
        self.kstack.append(k)
        try:
            while True:
                self.tick()
                so, self.obls = self.obls, []
                nd = len(self.defs); ninv = self.n_inv
                ad = dict(self.arrdef)
                H2 = H1.copy()
                for tag, f in kept: H2.assume(f)
                for f in ghost: H2.assume(f)
                outs = self.run_region(fn, body, hdr, [H2], header=hdr)
                bad = []
                for o in outs:
                    if o.kind != "back": continue
                    try: bsub = self.back_values(o.st, fn, hdr, allsyms, k, st)
                    except ShapeMismatch as e: raise Unsupported("loop shape: %s" % e)
                    for c in kept:
                        if any(c is x for x in bad): continue
                        g = z3.substitute(c[1], *bsub)
                        r, m = self.prove(o.st.pc, g, timeout=self.opts.get("cand_timeout", 2000))
                        if r != "proved":
                            bad.append(c)
                            if self.opts.get("debug"):
                                print("  [loop line %d] preservation drops %s %s (%s): %s" % (L.line, c[0], r, m if r == "unknown" else "", str(c[1])[:300]))
                                if self.opts.get("dump") and c[0] == "spec": self.ndump = getattr(self, "ndump", 0) + 1; open("%s%d.smt2" % (self.opts["dump"], self.ndump), "w").write(smt2txt(self.defs + o.st.pc + [z3.Not(g)]))
                if not bad: break
                kept = [c for c in kept if not any(c is x for x in bad)]
                self.obls = so; self.n_inv = ninv
            body_obls = self.obls; self.obls = so + body_obls
        finally:
            self.kstack.pop()
        if not self.probe:
            self.n_inv += 2 * len(kept)
            self.inv_log = getattr(self, "inv_log", []) + [(fn.name, L.line, len(kept))]
        # register closed forms
        evs = []
        for o in outs:
            if o.kind == "back": continue
            if o.kind == "exit":
                self.exit_facts(o.st, k, at, kept, msyms, symset)
                evs.append(Outcome("edge", o.st, frm=o.frm, to=o.to, line=0))
            else: evs.append(o)
        return evs

    def const_trip(self, fn, hdr, st, body, strides):
        """small constant iteration counts are executed completely (sound: unroll leaves an obligation)"""
        for b in body:
            if not b.insts or b.insts[-1][1].op != "br": continue
            I = b.insts[-1][1]
            if not I.ops or all(s in body for s in I.attr["succ"]): continue
            c = I.ops[0]
            if c.kind != "inst" or c.x.op != "icmp": continue
            for x, y in ((c.x.ops[0], c.x.ops[1]), (c.x.ops[1], c.x.ops[0])):
                if y.kind != "int": continue
                for v, sd in strides.items():
                    e = st.env.get(v)
                    if sd and isinstance(e, z3.ExprRef) and z3.is_bv(e) and self.delta(x, v, 0) is not None:
                        e = simp(e)
                        if not z3.is_bv_value(e): continue
                        lim = y.x if y.x < 1 << (y.ty.n - 1) else y.x - (1 << y.ty.n)
                        n = abs((lim - e.as_signed_long()) // sd) if sd else 99
                        if n <= 8: return n + 2
            if b is hdr:        # the bound is read from memory: a field known to be a small constant
                n = self.head_trip(b, c, st, strides)
                if n is not None and n <= 8: return n + 2
        return None
    def head_trip(self, b, c, st, strides):
        if any(I.op not in ("phi", "load", "getelementptr", "gep", "icmp", "sext", "zext", "trunc", "br", "bitcast", "and", "or") and not (I.op == "call" and I.attr["callee"].name and I.attr["callee"].name.startswith("llvm.dbg")) for _, I in b.insts): return None
        s = st.copy(); so = self.obls; self.obls = []; self.probe += 1
        try:
            for v, I in b.insts:
                if I.op not in ("phi", "br", "call"): self.exec_inst(s, v, I)
            x, y = [self.val(s, o) for o in c.x.ops]
            if not all(isinstance(z, z3.ExprRef) and z3.is_bv(z) for z in (x, y)): return None
            x, y = simp(x), simp(y)
            if not (z3.is_bv_value(x) and z3.is_bv_value(y)): return None
            sd = [d for w, d in strides.items() if d and (self.delta(c.x.ops[0], w, 0) is not None or self.delta(c.x.ops[1], w, 0) is not None)]
            return abs(x.as_signed_long() - y.as_signed_long()) // abs(sd[0]) if sd else None
        except (Unsupported, PathEnd): return None
        finally: self.obls = so; self.probe -= 1

    def unroll(self, fn, hdr, st, body, lim):
        """execute a loop completely: the obligation says it ends within lim iterations"""
        states = [st]; evs = []
        for n in range(lim + 1):
            outs = []
            for s in states: outs += self.run_region(fn, body, hdr, [s], header=hdr)
            states = []
            for o in outs:
                if o.kind == "back": states.append(o.st)
                elif o.kind == "exit": evs.append(Outcome("edge", o.st, frm=o.frm, to=o.to, line=0))
                else: evs.append(o)
            if len(states) > 1:
                live = fn.live[hdr] | set(fn.phis[hdr]); m = []
                for s in states:
                    for i, t in enumerate(m):
                        x = self.try_merge(t, s, live)
                        if x is not None: m[i] = x; break
                    else: m.append(s)
                states = m
            if not states: break
        for s in states: self.oblige(s, FALSE, "termination", "the loop ends within %d iterations" % lim, 0)
        return evs

    def exit_facts(self, st, k, at, kept, msyms, symset):
        """if the number of iterations at the exit is a loop-invariant term, say so, and give closed forms of the arrays"""
        kb = None
        for b in self.bound_terms(at, k, symset):
            if self.prove([f for f in st.pc if not has_quant(f)], k == b, timeout=1000, nodefs=True)[0] == "proved":
                kb = b; break
        if kb is not None: st.assume(k == kb)
        for tag, f in kept:
            if tag == "map":
                # f: ForAll js. A[js] == e
                q = f; n = q.num_vars()
                js = [z3.BitVec("j%d_" % i, 64) for i in range(n)]
                b = z3.substitute_vars(q.body(), *reversed(js))
                A = b.arg(0).arg(0); e = b.arg(1)
                if kb is not None: e = z3.substitute(e, (k, kb))
                self.arrdef[A.decl().name()] = (js, e)

    def bound_terms(self, at, k, symset):
        out = []
        for a in at:
            for c in atoms_of(a):
                if c.num_args() != 2 or not z3.is_bv(c.arg(0)) or big(c, 60): continue
                for x, y in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                    if x.size() == 32 and y.size() == 32 and k.decl().name() in consts_of(x) and not (set(consts_of(y)) & symset):
                        x, y = self.widen(z3.SignExt(32, x), k), z3.SignExt(32, y)
                    if k.decl().name() in consts_of(x) and not (set(consts_of(y)) & symset) and y.size() == 64:
                        d = simp(x - k)
                        if k.decl().name() not in consts_of(d): out.append(simp(y - d))
                        d = simp(x + k)
                        if k.decl().name() not in consts_of(d): out.append(simp(d - y))
        res = []
        for o in out:
            if not any(o.eq(r) for r in res): res.append(o)
        return res

    def cand_bounds(self, at, symset, k, strides, entry_env, H1, fn, hdr):
        out = []
        for a in at:
            for c in atoms_of(a):
                if c.num_args() != 2 or not z3.is_bv(c.arg(0)) or big(c, 60): continue
                for x, y in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                    cx = set(consts_of(x)) & symset
                    if not cx: continue
                    if any(z3.is_array(consts_of(x)[n]) for n in cx): continue
                    if (set(consts_of(y)) & symset) and not x.eq(y):
                        if z3.is_bv_value(y): continue
                        out += [z3.ULE(x, y), z3.UGE(x, y)]
                        continue
                    for f in (z3.ULE, z3.ULT, z3.UGE, z3.UGT): out.append(f(x, y))
                    out += [x <= y, x < y, x >= y, x > y, x != y]
                    # the variable itself, not only the tested expression
                    d = simp(x - k) if x.size() == 64 else None
                    if d is not None and k.decl().name() not in consts_of(d) and not x.eq(k):
                        b = simp(y - d)
                        out += [z3.ULE(k, b), z3.ULT(k, b)]
                    d = simp(x + k) if x.size() == 64 else None
                    if d is not None and k.decl().name() not in consts_of(d):
                        b = simp(d - y)
                        out += [z3.ULE(k, b), z3.ULT(k, b)]
                    if x.size() == 32 and k.decl().name() in consts_of(x):
                        xw = self.widen(z3.SignExt(32, x), k)
                        d = simp(xw - k)
                        if k.decl().name() not in consts_of(d):
                            for yw in (z3.SignExt(32, y), z3.ZeroExt(32, y)):
                                b = simp(yw - d); out += [z3.ULE(k, b)]
                            out += [z3.ULT(k, bv(1 << 31)), z3.ULE(k, bv(1 << 32))]
        return [("bound", simp_keep(f)) for f in out if not z3.is_true(simp(f))]

    def cand_same(self, syms, st):
        """a modified array may still be unchanged, or a variable stay at its entry value"""
        return []

    def havoc_mem(self, st, H, mod):
        msyms = []
        for r, what in sorted(mod, key=lambda x: (x[0].id, str(x[1]))):
            c = st.mem[r]
            if isinstance(c, ArrC):
                A = z3.Const(self.name(r.name), c.a.sort())
                H.mem[r] = ArrC(A, H.mem[r].n)
                if what == "n": 
                    n = z3.Const(self.name(r.name + "_n"), c.n.sort()); H.mem[r] = ArrC(H.mem[r].a, n)
                    msyms.append((n, c.n, ("arrn", r)))
                    continue
                msyms.append((A, c.a, ("arr", r)))
            elif isinstance(c, dict):
                x = c.get(what)
                if x is None:
                    if what in H.mem[r]:
                        x = H.mem[r][what]
                    else: 
                        z = c.get("zero")
                        continue_fresh = True
                        d = dict(H.mem[r]); d.pop(what, None); H.mem[r] = d
                        continue
                v, ty = x
                d = dict(H.mem[r])
                if isinstance(v, z3.ExprRef):
                    s = z3.Const(self.name("%s_%s" % (r.name, what)), v.sort())
                    d[what] = (s, ty); msyms.append((s, v, ("cell", r, what)))
                elif isinstance(v, Ptr):
                    if self.opts.get("ptr_fixed") and v.off.conc(): msyms.append((z3.BoolVal(True), z3.BoolVal(True), ("fixed", r, what, v)))     # stays the same pointer, checked at every back edge
                    elif v.r is not None and v.r.kind == "array" and v.off.conc() and v.off.c == 0 and not self.opts.get("ptrcell_same_region"):
                        R = Region(v.r.name + "_L", "array", v.r.elem, None, v.r.keys)
                        cc = st.mem[v.r]
                        A = z3.Const(self.name(R.name), cc.a.sort()); n = z3.Const(self.name(R.name + "_n"), cc.n.sort())
                        H.mem[R] = ArrC(A, n); H.freed = H.freed | {v.r}
                        d[what] = (Ptr(R), ty)
                        msyms.append((A, cc.a, ("bufa", r, what))); msyms.append((n, cc.n, ("bufn", r, what)))
                    else: raise Unsupported("pointer cell %s+%s changes in a loop" % (r, what))
                elif isinstance(v, PtrFam): pass
                else: raise Unsupported("cell %s+%s changes in a loop" % (r, what))
                H.mem[r] = d
            else: raise Unsupported("memory of %s changes in a loop" % r)
        return msyms

    def back_values(self, st, fn, hdr, syms, k, entry):
        sub = []; bufs = {}
        for s, e, t in syms:
            if t[0] == "k": sub.append((k, k + 1))
            elif t[0] == "phi":
                x = self.toint(st.env[t[1]]); sub.append((s, x))
            elif t[0] == "ptrphi":
                x = st.env[t[1]]
                if not isinstance(x, Ptr): raise ShapeMismatch("loop pointer changes shape")
                if not x.off.divisible(t[2]): raise ShapeMismatch("loop pointer alignment")
                sub.append((s, x.off.div(t[2])))
            elif t[0] == "nullphi":
                x = st.env[t[1]]
                if not (isinstance(x, Ptr) and (x.r is None or (x.r is t[2].r and x.off.conc() and x.off.c == t[2].off.c))): raise ShapeMismatch("loop pointer %r" % (x,))
                sub.append((s, TRUE if x.r is None else FALSE))
            elif t[0] == "arr": sub.append((s, st.mem[t[1]].a))
            elif t[0] == "arrn": sub.append((s, st.mem[t[1]].n))
            elif t[0] == "cell":
                v = st.mem[t[1]][t[2]][0]; sub.append((s, self.toint(v)))
            elif t[0] == "fixed":
                p = st.mem[t[1]][t[2]][0]
                if not (isinstance(p, Ptr) and p.r is t[3].r and p.off.conc() and p.off.c == t[3].off.c): raise ShapeMismatch("pointer cell %s+%s changes in a loop" % (t[1], t[2]))
            elif t[0] in ("bufa", "bufn"):
                p = st.mem[t[1]][t[2]][0]
                if not isinstance(p, Ptr) or p.r is None or not (p.off.conc() and p.off.c == 0) or p.r in st.freed or p.r.kind != "array":
                    raise ShapeMismatch("buffer pointer %s+%s" % (t[1], t[2]))
                if p.r in entry.mem: raise ShapeMismatch("buffer aliases older memory")
                o = bufs.setdefault(p.r, (t[1], t[2]))
                if o != (t[1], t[2]): raise ShapeMismatch("two buffers alias")
                c = st.mem[p.r]
                if not s.sort().eq(c.a.sort() if t[0] == "bufa" else c.n.sort()): raise ShapeMismatch("buffer element type")
                sub.append((s, c.a if t[0] == "bufa" else c.n))
        return sub

    # ---- map loops: derive a pointwise closed form as candidate
    def pointwise(self, B, js, A, a):
        """value of array term B at index js, writing `a` for A[js]; None if B is not an update of A"""
        if B.eq(A): return a
        k = B.decl().kind()
        if k == z3.Z3_OP_STORE:
            ch = B.children(); X = ch[0]; idx = ch[1:-1]; v = ch[-1]
            rest = self.pointwise(X, js, A, a)
            if rest is None: return None
            g = z3.And(*[j == i for j, i in zip(js, idx)]) if len(idx) > 1 else js[0] == idx[0]
            v = z3.substitute(v, (z3.Select(A, *idx), a))
            return z3.If(g, v, rest)
        if k == z3.Z3_OP_ITE:
            x = self.pointwise(B.arg(1), js, A, a); y = self.pointwise(B.arg(2), js, A, a)
            if x is None or y is None: return None
            return z3.If(B.arg(0), x, y)
        if B.num_args() == 0 and B.decl().name() in self.arrdef:
            vs, e = self.arrdef[B.decl().name()]
            e = z3.substitute(e, *[(v, j) for v, j in zip(vs, js)])
            return self.pw_expr(e, js, A, a)
        return None
    def pw_expr(self, e, js, A, a):
        """replace Select(X, js) inside e, where X leads back to A"""
        subs = []
        st = [e]; seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen or z3.is_quantifier(x): continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT:
                X = x.arg(0)
                if X.eq(A):
                    if all(p.eq(q) for p, q in zip(x.children()[1:], js)): subs.append((x, a)); continue
                elif X.sort().eq(A.sort()) and all(p.eq(q) for p, q in zip(x.children()[1:], js)) and A.decl().name() in self.reach_consts(X):
                    y = self.pointwise(X, js, A, a)
                    if y is None: return None
                    subs.append((x, y)); continue
            st.extend(x.children())
        if subs: e = z3.substitute(e, *subs)
        return e
    def reach_consts(self, X):
        out = set(); q = [X]
        while q:
            x = q.pop()
            for n, c in consts_of(x).items():
                if n in out: continue
                out.add(n)
                if n in self.arrdef: q.append(self.arrdef[n][1])
        return out

    def widen(self, e, k):
        """e with extensions of 32-bit terms in the iteration count replaced by 64-bit terms (a guess for candidates: equal while nothing wraps)"""
        kn = k.decl().name()
        if kn not in consts_of(e): return e
        def w32(x):
            c = x.decl().kind()
            if c == z3.Z3_OP_EXTRACT and x.arg(0).eq(k): return k
            if z3.is_bv_value(x): return bv(x.as_signed_long())
            if kn not in consts_of(x): return z3.SignExt(64 - x.size(), x)
            if c in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL):
                r = [w32(y) for y in x.children()]; t = r[0]
                if any(y is None for y in r): return None
                for y in r[1:]: t = t + y if c == z3.Z3_OP_BADD else t * y
                return t
            return None
        subs = []; st = [e]; seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen or z3.is_quantifier(x): continue
            seen.add(x.get_id())
            if z3.is_bv(x) and x.size() == 64 and kn in consts_of(x):
                c = x.decl().kind(); y = None
                if c == z3.Z3_OP_CONCAT and x.num_args() == 2 and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0: y = x.arg(1)
                elif c in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT): y = x.arg(0)
                if y is not None:
                    r = w32(y)
                    if r is not None: subs.append((x, simp(r))); continue
            st.extend(x.children())
        return z3.substitute(e, *subs) if subs else e

    def solve_time(self, e, j, k):
        """a term t(j) with e(t(j)) == j whenever j is in the image of e (e: term in k); None if unknown"""
        kn = k.decl().name()
        d = simp(e - k)
        if kn not in consts_of(d): return j - d
        d = simp(e + k)
        if kn not in consts_of(d): return d - j
        for match, f in self.inverses:
            arg = match(e)
            if arg is not None:
                t = f(j)
                d = simp(arg - k)
                if kn not in consts_of(d): return t - d
                d = simp(arg + k)
                if kn not in consts_of(d): return d - t
        return None

    def cand_maps(self, st, H, backs, msyms, k, symset):
        out = []
        kn = k.decl().name()
        for A, A0, tag in msyms:
            if not z3.is_array(A): continue
            dom = A.sort().domain(); 
            nk = A.sort().arity() if hasattr(A.sort(), "arity") else None
            ar = 1
            try:
                z3.Select(A, bv(0), bv(0)); ar = 2
            except z3.Z3Exception: ar = 1
            js = [z3.BitVec("j%d_" % i, 64) for i in range(ar)]
            if dom.size() != 64: continue
            a = z3.Const("a__", A.sort().range())
            D = None; ok = True
            base = len(H.pc)
            for o in backs:
                if tag[0] == "arr": B = o.st.mem[tag[1]].a
                elif tag[0] == "cell": B = o.st.mem[tag[1]][tag[2]][0]
                elif tag[0] == "bufa":
                    p = o.st.mem[tag[1]][tag[2]][0]; B = o.st.mem[p.r].a
                else: ok = False; break
                x = self.pointwise(B, js, A, a)
                if x is None: ok = False; break
                if D is None: D = x
                else:
                    fs = [f for f in o.st.pc[base:] if not has_quant(f)]
                    hold = [z3.simplify(z3.Not(f)) for b in backs if b is not o for f in b.st.pc[base:] if not has_quant(f)]; neg = {f.get_id() for f in hold}
                    br = [f for f in fs if z3.simplify(f).get_id() in neg]           # what distinguishes this path from the others
                    c = conj(br or fs)
                    # path conditions on the entry being written: only a candidate, so any read of A stands for it
                    rd = {y.get_id(): y for y in subterms(c) if y.decl().kind() == z3.Z3_OP_SELECT and y.arg(0).eq(A)}
                    D = z3.If(z3.substitute(c, *[(y, a) for y in rd.values()]) if rd else c, x, D)
            if not ok or D is None: 
                if self.opts.get("debug"): print("   no pointwise form for", A, [str(o.st.mem[tag[1]].a)[:200] if tag[0]=="arr" else "" for o in backs])
                continue
            # other loop-modified symbols read by the body: use their entry values (only a candidate)
            D = z3.substitute(D, *[(s, e) for s, e, t in msyms if not s.eq(A)])
            D = self.widen(D, k)
            cs = set(consts_of(D))
            if A.decl().name() in cs:
                if self.opts.get("debug"): print("   not pointwise:", A, str(D)[:300])
                continue
            times = []
            for c in atoms_of(D):
                if c.decl().kind() == z3.Z3_OP_EQ and c.num_args() == 2:
                    for x, y in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                        for j in js:
                            if x.eq(j) and kn in consts_of(y) and j.decl().name() not in consts_of(y):
                                t = self.solve_time(y, j, k)
                                if t is not None: times.append(t)
                                elif self.opts.get("debug"): print("   no inverse for", y)
                            else:
                                # index equalities over narrower integers: zext(idx) == j
                                pass
            for t in times[:2]:
                Aj = z3.Select(A, *js); A0j = z3.Select(A0, *js)
                e = z3.If(z3.ULT(t, k), z3.substitute(D, (k, t), (a, A0j)), A0j)
                e = simp(e)
                f = z3.ForAll(js, Aj == e, patterns=[Aj])
                out.append(("map", f))
            if not times and kn not in cs and False: pass
        return out

    # ------------------------------------------------------------ calls
    def call(self, st, v, I):
        cal = I.attr["callee"]
        if cal.kind == "func": name = cal.name
        elif cal.kind == "asm": raise Unsupported("inline asm")
        else:
            f = self.val(st, cal)
            if isinstance(f, FuncPtr): name = f.name
            elif isinstance(f, VSlot):
                c = self.reg.virtual(f.cls, f.off)
                if c is None: raise Unsupported("virtual call %s+%d" % (f.cls, f.off))
                return self.apply(st, v, I, c, "%s slot %d" % (f.cls, f.off // 8))
            else: raise Unsupported("indirect call")
        if name.startswith("llvm."): return self.intrinsic(st, v, I, name)
        c = self.reg.lookup(name)
        if c is not None:
            return self.apply(st, v, I, c, name)
        h = self.reg.extern(name)
        if h is not None:
            args = [self.val(st, o) for o in I.ops]
            self.assumed.add(h.__doc__ or name)
            r = h(self, st, args, I)
            if isinstance(r, list): return r
            if I.ty.k != "void":
                if r is None: r = self.fresh(I.ty, "ext")
                st.env[v] = r
            return None
        if name in self.mod.fptr and name in self.mod.defined:
            self.inlined.add(name)
            args = [self.val(st, o) for o in I.ops]
            saved = st.env
            outs = self.run_function(name, st, args)
            return outs
        raise Unsupported("call of %s" % ir.demangle([name])[name])

    def apply(self, st, v, I, c, name):
        """replace a call by the contract of the callee"""
        args = [self.val(st, o) for o in I.ops]
        self.used_contracts.add(c.title)
        cn = c.title
        try: env = c.bind(self, st, args)
        except ShapeMismatch as e:
            self.oblige(st, FALSE, "precondition", "%s: %s" % (cn, e), I.line); raise PathEnd()
        for nm, f in c.pre(self, st, env):
            self.oblige(st, f, "precondition", "%s: %s" % (cn, nm), I.line)
        res = []
        th = c.throws(self, st, env)
        if th is not None and not z3.is_false(simp(th)):
            s2 = st.copy(); s2.assume(th)
            if self.feasible(st, th): res.append(Outcome("throw", s2, line=I.line))
            st.assume(z3.Not(th))
        old = st.copy()
        if c.alternatives:
            for alt in c.alternatives:
                s2 = old.copy(); env["alt"] = alt
                ret = c.havoc(self, s2, env, I.ty)
                for nm, f in c.post(self, old, s2, env, ret): s2.assume(f)
                if self.feasible(s2, TRUE if not s2.pc else s2.pc[-1]): res.append(Outcome("ret", s2, val=ret))
            return res
        ret = c.havoc(self, st, env, I.ty)
        for nm, f in c.post(self, old, st, env, ret):
            st.assume(f)
        if I.ty.k != "void": st.env[v] = ret
        if res: return res + [Outcome("ret", st, val=ret)]
        return None

    def intrinsic(self, st, v, I, name):
        n = name.split(".")[1]
        if n in ("dbg", "lifetime", "assume", "experimental", "invariant", "var"): return None
        args = [self.val(st, o) for o in I.ops]
        if n == "memset":
            self.memset(st, args[0], args[1], self.toint(args[2]), I.line); return None
        if n in ("memcpy", "memmove"):
            self.memcpy(st, args[0], args[1], self.toint(args[2]), I.line); return None
        if n in ("umin", "umax", "smin", "smax"):
            a, b = [self.toint(x) for x in args]
            c = {"umin": z3.ULT, "umax": z3.UGT, "smin": lambda x, y: x < y, "smax": lambda x, y: x > y}[n](a, b)
            st.env[v] = z3.If(c, a, b); return None
        if n in ("umul", "uadd", "usub", "smul", "sadd", "ssub") and "with.overflow" in name:
            a, b = [self.toint(x) for x in args]; w = a.size()
            r = {"mul": a * b, "add": a + b, "sub": a - b}[n[1:]]
            sg = n[0] == "s"
            ok = {"mul": lambda: z3.BVMulNoOverflow(a, b, sg) if not sg else z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)),
                  "add": lambda: z3.BVAddNoOverflow(a, b, sg) if not sg else z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)),
                  "sub": lambda: z3.UGE(a, b) if not sg else z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True))}[n[1:]]()
            if n == "umul" and z3.is_bv_value(b):
                ok = z3.ULE(a, bv((2 ** w - 1) // max(1, b.as_long()), w))
            st.env[v] = (simp(r), z3.Not(ok)); return None
        if n in ("fabs", "sqrt", "floor", "ceil", "exp", "log", "pow"):
            if len(args) == 1: st.env[v] = self.F.un(n, args[0]); return None
        if n in ("maxnum", "minnum", "maximum", "minimum", "fmuladd", "copysign"): 
            raise Unsupported(name)
        if n == "abs":
            a = args[0]; st.env[v] = z3.If(a < 0, -a, a); return None
        if n in ("ctpop", "bswap", "fshl", "fshr"): raise Unsupported(name)
        if n == "is" and "constant" in name: st.env[v] = FALSE; return None
        if n == "expect": st.env[v] = args[0]; return None
        if n == "objectsize": st.env[v] = bv(-1, 64); return None
        if n == "trap": self.oblige(st, FALSE, "unreachable", "trap", I.line); raise PathEnd()
        if n in ("stacksave", "stackrestore"): 
            if I.ty.k != "void": st.env[v] = NULL
            return None
        raise Unsupported("intrinsic %s" % name)

    # ------------------------------------------------------------ bulk memory
    def memset(self, st, p, val, n, line):
        if isinstance(p, PtrU): raise Unsupported("memset of a pointer union")
        ns = simp(n)
        if z3.is_bv_value(ns) and ns.as_long() == 0: return
        if p.r is None:
            self.oblige(st, n == 0, "null", "memset of a null pointer has length 0", line); return
        self.check_live(st, p, line, "write")
        r = p.r; N = lin(ns, 1)
        if isinstance(st.mem.get(r), tuple) and r.kind == "struct": self.retype(st, p, ir.I8)
        if isinstance(st.mem.get(r), tuple):
            size, pend = st.mem[r]
            if not (z3.is_bv_value(val) and val.as_long() == 0): raise Unsupported("memset of fresh memory with non-zero")
            if p.off.conc() and p.off.c == 0 and (same_off(N, size) or self.prove(st.pc, N.bytes() == size.bytes(), timeout=1500)[0] == "proved"):
                st.mem[r] = (size, pend + [("zero",)]); return
            raise Unsupported("partial memset of fresh memory")
        if r.kind == "struct" and not (r.keys or r.stride):
            if not (N.conc() and p.off.conc()): raise Unsupported("memset of struct")
            if p.off.c + N.c > r.size: self.oblige(st, FALSE, "bounds", "memset inside %s" % r.name, line); raise PathEnd()
            d = dict(st.mem[r]); a, b = p.off.c, p.off.c + N.c
            z = z3.is_bv_value(val) and val.as_long() == 0
            if not z: raise Unsupported("memset of struct with non-zero")
            for o in [o for o in d if isinstance(o, int) and a <= o < b]:
                d[o] = (self.zero(d[o][1]), d[o][1]); self.note_write(r, o)
            if "zero" not in d: d["zero"] = (a, b)
            elif not (d["zero"][0] <= a and b <= d["zero"][1]): 
                for o in range(a, b, 8):
                    if o not in d and b - o >= 8: d[o] = (bv(0), ir.I64)
            st.mem[r] = d; return
        if r.kind == "array":
            es = r.elem.size
            if not (p.off.divisible(es) and N.divisible(es)): raise Unsupported("memset alignment")
            lo = p.off.div(es); cnt = N.div(es); c = st.mem[r]; ne = self.nelem(st, p)
            self.oblige(st, z3.And(z3.ULE(lo, ne), z3.ULE(cnt, ne - lo)), "bounds", "memset inside %s" % r.name, line)
            if z3.is_bv_value(val) and val.as_long() == 0: x = self.zero(r.elem)
            elif es == 1: x = val
            else: raise Unsupported("memset of non-bytes with non-zero")
            if r.keys:
                A = self.def_array(r.name, r.elem, 1, lambda c0, j: z3.If(z3.And(c0 == p.key, z3.ULE(lo, j), z3.ULT(j - lo, cnt)), x, z3.Select(c.a, c0, j)))
            else:
                A = self.def_array(r.name, r.elem, 0, lambda j: z3.If(z3.And(z3.ULE(lo, j), z3.ULT(j - lo, cnt)), x, z3.Select(c.a, j)))
            st.mem[r] = ArrC(A, c.n); self.note_write(r, "a"); return
        raise Unsupported("memset of %s" % r.kind)

    def memcpy(self, st, d, s, n, line):
        for x in (d, s):
            if isinstance(x, Ptr) and x.r is not None: self.ensure_global(st, x.r)
        if isinstance(d, PtrU) or isinstance(s, PtrU): raise Unsupported("memcpy of a pointer union")
        ns = simp(n)
        if z3.is_bv_value(ns) and ns.as_long() == 0: return
        if d.r is None or s.r is None:
            self.oblige(st, n == 0, "null", "memcpy with a null pointer has length 0", line); return
        self.check_live(st, d, line, "write"); self.check_live(st, s, line, "read")
        N = lin(ns, 1)
        dr, sr = d.r, s.r
        if sr.kind == "struct" and not (sr.keys or sr.stride) and N.conc() and d.off.conc() and s.off.conc():
            if isinstance(st.mem.get(dr), tuple): dr = self.retype(st, d, ir.I8)
            if dr.kind == "struct" and not (dr.keys or dr.stride):
                sc = st.mem[sr]
                if s.off.c + N.c > sr.size or d.off.c + N.c > dr.size:
                    self.oblige(st, FALSE, "bounds", "memcpy inside %s" % dr.name, line); raise PathEnd()
                dd = dict(st.mem[dr])
                for o in [o for o in dd if isinstance(o, int) and d.off.c <= o < d.off.c + N.c]: del dd[o]
                zs = sc.get("zero")
                for o, x in sc.items():
                    if isinstance(o, int) and s.off.c <= o < s.off.c + N.c:
                        no = o - s.off.c + d.off.c; dd[no] = x; self.note_write(dr, no)
                covered = sum(x[1].size for o, x in sc.items() if isinstance(o, int) and s.off.c <= o < s.off.c + N.c)
                if covered < N.c and zs is None:
                    # untouched source bytes: materialise as 8-byte words
                    o = s.off.c
                    while o < s.off.c + N.c:
                        if o in sc: o += sc[o][1].size; continue
                        w = 8 if o % 8 == 0 and o + 8 <= s.off.c + N.c and not any(q in sc for q in range(o, o + 8)) else (4 if o % 4 == 0 and o + 4 <= s.off.c + N.c else 1)
                        t = {8: ir.I64, 4: ir.I32, 1: ir.I8}[w]
                        x = self.cell_get(st, sr, None, o, t)
                        no = o - s.off.c + d.off.c; dd[no] = (x, t); self.note_write(dr, no); o += w
                elif covered < N.c:
                    for o in range(s.off.c, s.off.c + N.c, 8):
                        no = o - s.off.c + d.off.c
                        if no not in dd and not any(q in dd for q in range(no, no + 8)): dd[no] = (bv(0), ir.I64); self.note_write(dr, no)
                st.mem[dr] = dd; return
        if isinstance(st.mem.get(sr), tuple): raise Unsupported("copy of uninitialised memory")
        if sr.kind != "array": raise Unsupported("memcpy from %s to %s" % (sr.kind, dr.kind))
        if isinstance(st.mem.get(dr), tuple):
            dr.tag = "array"; self.retype(st, d, sr.elem)
        if dr.kind == "struct" and N.conc() and d.off.conc():
            es = sr.elem.size; lo = s.off.div(es)
            sc = st.mem[sr]; ne = self.nelem(st, s)
            self.oblige(st, z3.And(z3.ULE(lo, ne), z3.ULE(bv(N.c // es), ne - lo)), "bounds", "memcpy inside %s" % sr.name, line)
            for i in range(N.c // es):
                x = z3.Select(sc.a, s.key, lo + i) if sr.keys else z3.Select(sc.a, lo + i)
                self.cell_set(st, dr, None, d.off.c + i * es, x, sr.elem, line)
            return
        if dr.kind != "array": raise Unsupported("memcpy to %s" % dr.kind)
        if dr.elem.size != sr.elem.size or dr.elem.k != sr.elem.k: raise Unsupported("memcpy between element types %r %r" % (dr.elem, sr.elem))
        es = dr.elem.size
        if not (d.off.divisible(es) and s.off.divisible(es) and N.divisible(es)): raise Unsupported("memcpy alignment")
        dl, sl, cnt = d.off.div(es), s.off.div(es), N.div(es)
        dn, sn = self.nelem(st, d), self.nelem(st, s)
        self.oblige(st, z3.And(z3.ULE(dl, dn), z3.ULE(cnt, dn - dl)), "bounds", "memcpy writes inside %s" % dr.name, line)
        self.oblige(st, z3.And(z3.ULE(sl, sn), z3.ULE(cnt, sn - sl)), "bounds", "memcpy reads inside %s" % sr.name, line)
        dc, sc = st.mem[dr], st.mem[sr]
        def src(j):
            i = simp(j - dl + sl)
            return z3.Select(sc.a, s.key, i) if sr.keys else z3.Select(sc.a, i)
        if dr.keys:
            A = self.def_array(dr.name, dr.elem, 1, lambda c0, j: z3.If(z3.And(c0 == d.key, z3.ULE(dl, j), z3.ULT(j - dl, cnt)), src(j), z3.Select(dc.a, c0, j)))
        else:
            A = self.def_array(dr.name, dr.elem, 0, lambda j: z3.If(z3.And(z3.ULE(dl, j), z3.ULT(j - dl, cnt)), src(j), z3.Select(dc.a, j)))
        st.mem[dr] = ArrC(A, dc.n); self.note_write(dr, "a")

class NoMerge(Exception): pass
def smt2txt(fs):
    s = z3.Solver(); s.add(*fs); return s.to_smt2()
def big(e, n):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if len(seen) > n: return True
        st.extend(x.children())
    return False

def atoms_of(e):
    out = []; st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x): continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if z3.is_bool(x) and x.num_args() == 2 and x.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR) and not z3.is_bool(x.arg(0)): out.append(x)
            st.extend(x.children())
    return out
def simp_keep(f): return f
def subterms(e):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x): continue
        seen.add(x.get_id())
        if z3.is_app(x): yield x; st.extend(x.children())
