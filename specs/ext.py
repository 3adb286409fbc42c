"""Assumed contracts of functions outside the repository (C and C++ run-time library)."""
import re, z3
from irv import llvmir as ir
from irv.engine import *

def x_new(E, st, a, I):
    """operator new / new[]: returns fresh memory of the requested size (or throws bad_alloc; requests of 2^47 bytes or more never succeed)"""
    size = E.toint(a[0])
    s = simp(size)
    # clang's array-new overflow idiom: size = overflow ? -1 : n*sizeof(T)
    if s.decl().kind() == z3.Z3_OP_ITE and z3.is_bv_value(s.arg(1)) and s.arg(1).as_signed_long() == -1:
        st.assume(z3.Not(s.arg(0))); s = s.arg(2)
    elif s.decl().kind() == z3.Z3_OP_ITE and z3.is_bv_value(s.arg(2)) and s.arg(2).as_signed_long() == -1:
        st.assume(s.arg(0)); s = s.arg(1)
    o = lin(s, 1)
    if not o.conc(): st.assume(z3.ULT(s, bv(MAXALLOC)))
    r = Region(E.name("new"), "raw"); r.heap = True
    st.mem[r] = (o, [])
    if "Znam" in I.attr["callee"].name: r.tag = "array"
    return Ptr(r)
def x_delete(E, st, a, I):
    """operator delete: releases the whole allocation"""
    p = a[0]
    if isinstance(p, PtrU): raise Unsupported("delete of a pointer union")
    if p.r is None: return None
    E.check_live(st, p, I.line, "release")
    if not (p.off.conc() and p.off.c == 0): raise Unsupported("delete of an interior pointer")
    if p.r.local or (not p.r.heap): E.oblige(st, FALSE, "lifetime", "released memory %s came from new" % p.r.name, I.line)
    st.freed = st.freed | {p.r}
    E.note_write(p.r, "freed")
    return None
def x_noop(E, st, a, I):
    """diagnostic output (fprintf/cerr/puts) has no effect on the verified state"""
    return None
def math1(name):
    def h(E, st, a, I):
        return E.F.un(name, a[0])
    h.__doc__ = "%s is a pure function of its argument" % name
    return h
def math2(name):
    def h(E, st, a, I):
        s = a[0].sort()
        return z3.Function("m_" + name + str(s), s, s, s)(a[0], a[1])
    h.__doc__ = "%s is a pure function of its arguments" % name
    return h
def x_memcpy(E, st, a, I):
    """memcpy/memmove/memset behave as the C standard says"""
    E.memcpy(st, a[0], a[1], E.toint(a[2]), I.line); return a[0]
def x_memset(E, st, a, I):
    """memcpy/memmove/memset behave as the C standard says"""
    E.memset(st, a[0], z3.Extract(7, 0, a[1]), E.toint(a[2]), I.line); return a[0]

EXT = {"_Znwm": x_new, "_Znam": x_new, "_ZdlPv": x_delete, "_ZdaPv": x_delete, "_ZdlPvm": x_delete, "_ZdaPvm": x_delete,
       "fprintf": x_noop, "printf": x_noop, "puts": x_noop, "fputs": x_noop, "fwrite_diag": x_noop, "fputc": x_noop,
       "memcpy": x_memcpy, "memmove": x_memcpy, "memset": x_memset}
for n in ("sqrtf", "expf", "logf", "fabsf", "floorf", "ceilf", "log1pf"): EXT[n] = math1(n[:-1])
for n in ("sqrt", "exp", "log", "fabs", "floor", "ceil", "log1p"): EXT[n] = math1(n)
EXT["powf"] = math2("pow"); EXT["pow"] = math2("pow")
