"""Reading lines: FileReader::ReadLine against the C library's fgets/strlen/strrchr/realloc, described by what they
do to the text held in the buffer. Ghost cells: allocated size, length of the text, text ends its line, end of file reached,
characters of this line taken from the file."""
import z3
from irv import llvmir as ir
from irv.engine import *
from irv.contract import Contract
from specs.model import off, size
from specs.iter import ob, bad, isnull
SIZE, LEN, NL, EOF, CONS, CALLS, FAILED = range(0, 56, 8)
g = lambda E, st, o: E.load(st, Ptr(E.G, Off(o)), ir.I64)
def s(E, st, o, v): E.store(st, Ptr(E.G, Off(o)), simp(v) if isinstance(v, z3.ExprRef) else bv(v), ir.I64)
LINE = bv(1 << 28)
def at(E, st, p, what, line):
    if not (isinstance(p, Ptr) and p.r is E.buf): bad(E, st, what + " the buffer", line)
    e = p.off.c if p.off.conc() else None
    return p.off.bytes() if e is None else bv(e)
def h_fgets(E, st, a, I):
    """fgets: takes at least one and at most n-1 characters up to the line's end, or nothing at the end of the file or on an error; lines are shorter than 2^28 characters and contain no NUL"""
    p = at(E, st, a[0], "characters are read into", I.line); n = z3.SignExt(32, a[1]) if a[1].size() == 32 else a[1]; L = g(E, st, LEN); first = g(E, st, CALLS) == 0
    ob(E, st, z3.And(n >= 1, n <= g(E, st, SIZE), z3.ULE(p + n, g(E, st, SIZE))), "never more characters than the buffer has room for", I.line)
    ob(E, st, p == z3.If(first, bv(0), L), "reads on behind the text that is already there", I.line)
    ob(E, st, g(E, st, NL) == 0, "never reads on behind the end of the line", I.line)
    ob(E, st, n >= 2, "asks for at least one character", I.line)
    out = []; k = z3.BitVec(E.name("got"), 64); c = g(E, st, CONS)
    for nl, eof in ((1, 0), (0, 0), (0, 1)):
        x = st.copy(); x.assume(z3.And(g(E, st, EOF) == 0, g(E, st, FAILED) == 0, z3.ULE(1, k), z3.ULE(k, n - 1), z3.ULT(p + k, LINE)));
        if (nl, eof) == (0, 0): x.assume(k == n - 1)
        s(E, x, LEN, p + k); s(E, x, NL, nl); s(E, x, EOF, eof); s(E, x, CONS, c + k); s(E, x, CALLS, 1); out.append(Outcome("ret", x, val=a[0]))
    x = st.copy(); s(E, x, EOF, 1); s(E, x, CALLS, 1); x.assume(g(E, st, FAILED) == 0); out.append(Outcome("ret", x, val=NULL))
    x = st.copy(); s(E, x, FAILED, 1); s(E, x, CALLS, 1); x.assume(g(E, st, EOF) == 0); out.append(Outcome("ret", x, val=NULL))
    return out
def h_feof(E, st, a, I):
    """feof tells whether the end of the file was reached"""
    return z3.Extract(31, 0, g(E, st, EOF))
def h_strlen(E, st, a, I):
    """strlen of the text in the buffer"""
    p = at(E, st, a[0], "the length is asked of", I.line); ob(E, st, p == 0, "the length of the whole text", I.line); return g(E, st, LEN)
def h_chr(E, st, a, I):
    """strchr and strrchr find the end of the line if it is there"""
    p = at(E, st, a[0], "a character is looked for in", I.line); ob(E, st, z3.And(z3.ULE(p, g(E, st, LEN)), a[1] == 10), "the end of the line is looked for in the text", I.line)
    y, n = st.copy(), st.copy(); y.assume(z3.And(g(E, st, NL) == 1, z3.ULT(p, g(E, st, LEN)))); n.assume(z3.Not(z3.And(g(E, st, NL) == 1, z3.ULT(p, g(E, st, LEN)))))
    return [Outcome("ret", y, val=a[0]), Outcome("ret", n, val=NULL)]
def h_realloc(E, st, a, I):
    """realloc succeeds and keeps the text"""
    p = at(E, st, a[0], "memory is enlarged for", I.line); ob(E, st, z3.And(p == 0, z3.UGT(a[1], g(E, st, LEN)), z3.ULE(a[1], bv(1 << 31))), "the enlarged buffer has room for the text", I.line); s(E, st, SIZE, a[1]); return a[0]
LEXT = {"fgets": h_fgets, "feof": h_feof, "strlen": h_strlen, "strrchr": h_chr, "strchr": h_chr, "realloc": h_realloc}
class ReadLine(Contract):
    title = "FileReader::ReadLine: one whole line, nothing lost, within the buffer"
    opts = {"no_merge": True, "ptr_fixed": True, "timeout": 15000, "cand_timeout": 5000}
    def target(self, mod): return "v_readline"
    def setup(self, E, st, case):
        r = E.new_struct(st, "reader", size(E, "FileReader")); E.store(st, Ptr(r, Off(off(E, "FileReader_mode"))), bv(off_text(E), 32), ir.I32); f = E.new_struct(st, "file", 8); E.store(st, Ptr(r, Off(off(E, "FileReader_file"))), Ptr(f), ir.PTR)
        E.buf = E.new_array(st, "buffer", ir.I8, bv(1 << 32)); self.d = E.new_struct(st, "dst", 8); E.store(st, Ptr(self.d), Ptr(E.buf), ir.PTR); self.l = E.new_struct(st, "dst_len", 4); E.load(st, Ptr(self.l), ir.I32)
        E.G = E.new_struct(st, "ghost", 56)
        for k in range(0, 56, 8): s(E, st, k, 0)
        self.n0 = z3.BitVec("size", 64); s(E, st, SIZE, self.n0)
        return [Ptr(r), Ptr(self.d), Ptr(self.l)]
    def bind(self, E, st, a): return {"len": E.load(st, Ptr(self.l), ir.I32)}
    def pre(self, E, st, e): return [("the buffer has the given length", z3.And(e["len"] >= 2, e["len"] <= (1 << 28), self.n0 == z3.SignExt(32, e["len"])))]
    def modifies(self, E, st, e): return {E.G, E.buf, self.d, self.l}
    def loop(self, L):
        E = L.engine; h = L.head; G = lambda o: g(E, h, o); l = E.load(h, Ptr(self.l), ir.I32)
        return [z3.SignExt(32, l) == G(SIZE), l >= 2, l <= (1 << 28), l <= (1 << 29), G(CALLS) == 1, z3.ULE(1, G(LEN)), z3.ULT(G(LEN), G(SIZE)), G(CONS) == G(LEN), z3.ULT(G(LEN), LINE), G(FAILED) == 0, G(NL) == 0, z3.ULE(G(NL), 1), z3.ULE(G(EOF), 1), z3.Or(G(NL) == 1, G(EOF) == 1, G(LEN) == G(SIZE) - 1), z3.Not(z3.And(G(NL) == 1, G(EOF) == 1)), z3.Or(G(EOF) == 1, l <= (1 << 28)), z3.Or(G(NL) == 1, G(EOF) == 1, l <= (1 << 28)), z3.Or(G(EOF) == 1, G(LEN) == G(SIZE) - 1)]
    def post(self, E, old, st, e, ret):
        G = lambda o: g(E, st, o); l = E.load(st, Ptr(self.l), ir.I32); d = E.load(st, Ptr(self.d), ir.PTR)
        return [("the caller's buffer and its length agree", z3.And(z3.BoolVal(isinstance(d, Ptr) and d.r is E.buf and d.off.conc() and d.off.c == 0), z3.SignExt(32, l) == G(SIZE))), ("the text fits", z3.ULT(G(LEN), G(SIZE))),
                ("a line is returned exactly when there was something to read", z3.Implies(G(FAILED) == 0, (ret == 0) == (z3.UGE(G(CONS), 1)))), ("a whole line: it ends with a line break or at the end of the file", z3.Implies(z3.And(ret == 0, G(FAILED) == 0), z3.Or(G(NL) == 1, G(EOF) == 1))),
                ("nothing read from the file is lost", z3.Implies(ret == 0, G(CONS) == G(LEN))), ("the end of the file is reported as such", z3.Implies(z3.And(G(CONS) == 0, G(EOF) == 1), ret == 3)), ("an error before any character is reported", z3.Implies(z3.And(G(CONS) == 0, G(FAILED) == 1), ret == 2))]
def off_text(E):
    from specs.model import const_fn
    return const_fn(E.mod, "v_text")
def contracts(): return [ReadLine()]
