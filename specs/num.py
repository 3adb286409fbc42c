"""Parsing numbers from text: reads never pass the terminator, text that is not a number is refused, plain integers give their value."""
import z3
from irv import llvmir as ir
from irv.engine import *
from irv.contract import Contract
B8 = lambda n: bv(n, 8)
def space(c): return z3.Or([c == B8(ord(x)) for x in " \t\n\r"])
def digit(c): return z3.And(z3.UGE(c, B8(48)), z3.ULE(c, B8(57)))
V = z3.Function("value_to", BV64, BV64)
class Num(Contract):
    opts = {"no_merge": True, "timeout": 8000, "cand_timeout": 6000, "budget": 600}; floats = FloatUF
    TEXT, PLAIN, BIG, BAD = "any text", "plain number", "number out of range", "not a number"
    def __init__(self, n): self.n = n; self.title = {"int": "NumericParser::ParseInt", "uint": "NumericParser::ParseUint", "float": "NumericParser::ParseFloat"}[n]; self.cases = (self.TEXT, self.BAD) + ((self.PLAIN, self.BIG) if n != "float" else ())
    def target(self, mod): return "v_" + self.n
    def setup(self, E, st, case):
        self.case = case; self.N = z3.BitVec("len", 64); self.buf = E.new_array(st, "text", ir.I8, self.N + 1); self.end = E.new_struct(st, "end", 8); return [Ptr(self.buf), Ptr(self.end)]
    def bind(self, E, st, a): return {"T": st.mem[self.buf].a, "s": z3.BitVec("start", 64), "e": z3.BitVec("stop", 64), "q": z3.BitVec("over", 64)}
    def lim(self, e):
        if self.n == "uint": return bv(0xffffffff)
        return z3.If(z3.Select(e["T"], e["m"]) == B8(45), bv(0x80000000), bv(0x7fffffff))
    def pre(self, E, st, e):
        T, N, s, x = e["T"], self.N, e["s"], e["e"]; j = z3.BitVec("tj", 64); t = z3.Select(T, j); R = lambda a, b, f, n: (n, z3.ForAll([j], z3.Implies(z3.And(z3.ULE(a, j), z3.ULT(j, b)), f(t)), patterns=[t]))
        f = [("the text ends with its first NUL", z3.And(z3.ULT(N, bv(1 << 31)), z3.Select(T, N) == 0)), R(bv(0), N, lambda c: c != 0, "no NUL before")]
        if self.case == self.TEXT: return f
        e["m"] = m = z3.BitVec("sign", 64); f += [R(bv(0), m, space, "blanks first"), ("a sign or not", z3.And(z3.ULE(m, s), z3.ULE(s, m + 1), z3.ULE(s, N), z3.ULE(m, N), z3.Not(space(z3.Select(T, m)))))]
        sg = z3.Or(z3.Select(T, m) == B8(43), z3.Select(T, m) == B8(45))
        f.append(("the sign", z3.If(s == m, z3.Not(sg) if self.n != "uint" else TRUE, sg)) if self.n != "uint" else ("no sign", s == m))
        if self.case == self.BAD: return f + [("no digit and no point", z3.And(z3.Not(digit(z3.Select(T, s))), z3.Select(T, s) != B8(46)))]
        after = z3.Select(T, x); k = z3.BitVec("vk", 64)
        f += [("digits", z3.And(z3.ULT(s, x), z3.ULE(x, N))), R(s, x, digit, "only digits"), ("the value so far", V(s) == 0)]
        self.unf = lambda i: z3.Implies(z3.And(z3.ULE(s, i), z3.ULT(i, x)), V(i + 1) == V(i) * 10 + z3.ZeroExt(56, z3.Select(T, i) - B8(48)))
        if self.case == self.PLAIN: f += [("the number ends there", z3.And(z3.Not(digit(after)), after != B8(46), after != B8(101), after != B8(69))), ("within range", z3.ForAll([k], z3.Implies(z3.And(z3.ULE(s, k), z3.ULE(k, x)), z3.ULE(V(k), self.lim(e))), patterns=[V(k)]))]
        else: q = e["q"]; f += [("within range up to a digit", z3.And(z3.ULT(s, q), z3.ULE(q, x), z3.UGT(V(q), self.lim(e)), z3.ForAll([k], z3.Implies(z3.And(z3.ULE(s, k), z3.ULT(k, q)), z3.ULE(V(k), self.lim(e))), patterns=[V(k)])))]
        return f
    def modifies(self, E, st, e): return {self.end}
    def loop(self, L):
        E = L.engine; e = E.env; T, N, s, x = e["T"], self.N, e["s"], e["e"]; o = []; j = z3.BitVec("lj", 64); t = z3.Select(T, j)
        offs = [v.off.bytes() for v in L.phis.values() if isinstance(v, Ptr) and v.r is self.buf]
        for P in offs:
            o += [z3.ULE(P, N), z3.ULT(P, N), z3.ULE(1, P)]
            if self.case == self.TEXT: continue
            m = e["m"]; o += [z3.ULE(P, m), z3.ULE(P, s)]
            if self.case in (self.PLAIN, self.BIG):
                L.head.pc = L.head.pc + [self.unf(P)]; o += [z3.And(z3.ULE(s, P), z3.ULE(P, x)), z3.ULE(x, P), z3.ForAll([j], z3.Implies(z3.And(z3.ULE(x, j), z3.ULT(j, P)), space(t)), patterns=[t])]
                if self.case == self.BIG: o += [z3.ULE(P, e["q"]), z3.ULT(P, e["q"])]
                for v in L.phis.values():
                    if isinstance(v, z3.ExprRef) and z3.is_bv(v):
                        w = v if v.size() == 64 else z3.ZeroExt(64 - v.size(), v) if v.size() < 64 else None
                        if w is not None: o += [w == V(P), z3.ULE(w, self.lim(e)), w == P - s, z3.ULE(1, w), w == 0, w == V(x)]
        for v in L.phis.values():
            if self.case == self.BAD and isinstance(v, z3.ExprRef): o += [v == 0] if z3.is_bv(v) and v.size() <= 8 else [z3.Not(v)] if z3.is_bool(v) else []
            if self.case == self.PLAIN and not offs and isinstance(v, z3.ExprRef) and z3.is_bv(v) and v.size() in (32, 64): o += [v == 0, v == (V(x) if v.size() == 64 else z3.Extract(31, 0, V(x)))]
            if isinstance(v, z3.ExprRef) and z3.is_bv(v) and v.size() in (32, 64): o += [v >= 0, v <= 100000, v <= 1000000, v >= -100000, v > -100000, z3.ULE(v, bv(0xffffffff, v.size())), z3.ULE(v, bv(0x7fffffff, v.size())), z3.ULE(v, bv(0x80000000, v.size())), z3.ULT(v, bv(1 << 31, v.size()))] + [z3.And(v >= 0, (v if v.size() == 64 else z3.SignExt(32, v)) <= P) for P in offs]
        return o
    def post(self, E, old, st, e, ret):
        p = E.load(st, Ptr(self.end), ir.PTR)
        if not (isinstance(p, Ptr) and p.r is self.buf): return [("the end points into the text", FALSE)]
        P = p.off.bytes() if not p.off.conc() else bv(p.off.c); T, N = e["T"], self.N; f = [("the end lies within the text", z3.ULE(P, N))]
        if self.case in (self.BAD, self.BIG): f.append(("refused: the end is not moved", P == 0))
        if self.case == self.PLAIN:
            v = z3.Extract(31, 0, V(e["e"])); neg = z3.And(e["s"] != e["m"], z3.Select(T, e["m"]) == B8(45)); j = z3.BitVec("ej", 64)
            f += [("the value it spells", ret == (z3.If(neg, -v, v) if self.n == "int" else v)), ("the end is behind the number and blanks", z3.And(z3.ULE(e["e"], P), z3.Not(space(z3.Select(T, P))), z3.ForAll([j], z3.Implies(z3.And(z3.ULE(e["e"], j), z3.ULT(j, P)), space(z3.Select(T, j))), patterns=[z3.Select(T, j)])))]
        return f
def contracts(): return [Num(n) for n in ("int", "uint", "float")]
