"""Setting hyper-parameters: a value is taken over exactly or refused by an exception, by name; for every value the text may stand for."""
import z3
from irv import llvmir as ir
from irv.engine import *
from irv.contract import Contract
from irv.views import *
from specs.model import off, size, F, F32, c_
STR = "NSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"
EQ, NEQ, STOF, STOI = "_ZSteqIcSt11char_traitsIcESaIcEEbRKNSt7__cxx1112basic_stringIT_T0_T1_EEPKS5_", "_ZStneIcSt11char_traitsIcESaIcEEbRKNSt7__cxx1112basic_stringIT_T0_T1_EEPKS5_", "_ZNSt7__cxx114stofERKNS_12basic_stringIcSt11char_traitsIcESaIcEEEPm", "_ZNSt7__cxx114stoiERKNS_12basic_stringIcSt11char_traitsIcESaIcEEEPmi"
CTOR, DTOR, COPY = "_Z%sC2EPKcRKS3_" % STR.replace("NSt7", "NSt7"), "_Z%sD2Ev" % STR, "_Z%sC2ERKS4_" % STR
def text(E, p):
    r = p.r
    if not (isinstance(r.tag, tuple) and r.tag[0] == "global" and r.tag[3] is not None and p.off.conc()): raise Unsupported("text that is not a literal")
    ini = r.tag[3]
    if ini.kind == "zero": return ""
    b = bytes(x.x & 255 for x in ini.x)[p.off.c:]; return b.split(b"\0")[0].decode("latin1")
def who(E, p):
    if not (isinstance(p, Ptr) and p.r in E.strs): raise Unsupported("an unknown string")
    return E.strs[p.r]
def x_eq(E, st, a, I):
    """comparing a string with a literal tells whether the texts are equal"""
    s, t = who(E, a[0]), text(E, a[1])
    if s is E.valtok: return z3.Bool("value is %s" % t)
    return z3.BoolVal(s == t)
def x_ne(E, st, a, I):
    """comparing a string with a literal tells whether the texts are equal"""
    return z3.Not(x_eq(E, st, a, I))
def x_stof(E, st, a, I):
    """stof gives the number the text stands for or throws"""
    if who(E, a[0]) is not E.valtok: E.oblige(st, FALSE, "value", "the given value is read", I.line); raise PathEnd()
    return E.vf
def x_stoi(E, st, a, I):
    """stoi gives the number the text stands for or throws"""
    if who(E, a[0]) is not E.valtok: E.oblige(st, FALSE, "value", "the given value is read", I.line); raise PathEnd()
    return E.vi
def x_ctor(E, st, a, I):
    """constructing a string from a literal gives that text"""
    E.strs[a[0].r] = text(E, a[1])
def x_copy(E, st, a, I):
    """copying a string gives the same text"""
    E.strs[a[0].r] = who(E, a[1])
def x_none(E, st, a, I):
    """destroying a string has no other effect"""
    return None
PEXT = {EQ: x_eq, NEQ: x_ne, STOF: x_stof, STOI: x_stoi, CTOR: x_ctor, COPY: x_copy, DTOR: x_none}
KEEP = list(PEXT)
ge0, gt0 = lambda v: F.cmp("oge", v, c_(0.0)), lambda v: F.cmp("ogt", v, c_(0.0))
unit = lambda v: z3.And(F.cmp("ogt", v, c_(0.0)), F.cmp("ole", v, c_(1.0)))
REG = {"STG": "OnlineL1", "FOBOS_L1": "LazyOnlineL1", "RDA_L1": "OnlineL1", "ERDA_L1": "OnlineL1", "AdaFOBOS_L1": "LazyOnlineL1", "AdaRDA_L1": "OnlineL1", "PET": "Online", "SOFS": "Online", "AdaFOBOS_OFS": "Online", "AdaRDA_OFS": "Online"}
class Set(Contract):
    opts = {"no_merge": True, "timeout": 15000}
    def __init__(self, cls, name, kind="f", field=None, ok=None, also=(), vec=None, throws=None, case="", onreg=False):
        self.cls, self.name, self.kind, self.field, self.ok, self.also, self.vec, self.onreg, self.cls2 = cls, name, kind, field, ok, also, vec, onreg, case
        self.title = "%s::SetParameter(%s)%s: %s" % (cls, name, " " + case if case else "", "always refused" if field is None else "taken over exactly" + (" or refused" if ok else "")); self.throws_only = field is None
        if field is None: self.may_not_return = True
    def target(self, mod): return "s_" + self.cls
    def setup(self, E, st, case):
        E.m = r = E.new_struct(st, "model", size(E, self.cls)); E.store(st, Ptr(r, Off(off(E, "OnlineModel_clf"))), bv(3 if self.cls2 else 1, 32), ir.I32)
        E.vf, E.vi = z3.Const("number", F32), z3.BitVec("integer", 32); E.valtok = object(); s = [E.new_struct(st, n, 32) for n in ("name", "value")]; E.strs = {s[0]: self.name, s[1]: E.valtok}
        E.rg = None; E.store(st, Ptr(r, Off(off(E, "OnlineModel_reg"))), NULL, ir.PTR)
        if self.cls in REG: E.rg = E.new_struct(st, "regularizer", 256); E.store(st, Ptr(E.rg), VTab("_ZTVN3sol5model%d%sRegularizerE" % (len(REG[self.cls]) + 11, REG[self.cls]), 16), ir.PTR); E.store(st, Ptr(r, Off(off(E, "OnlineModel_reg"))), Ptr(E.rg), ir.PTR)
        self.v = None
        if E.rg is not None and REG[self.cls] == "LazyOnlineL1": self.v = mk_vec(E, st, "times", ir.F32, "buf", r=E.rg, off=off(E, "LazyOnlineL1Regularizer_lut"))
        if self.vec: self.v = mk_vec(E, st, "diag", ir.F32, "buf"); E.store(st, Ptr(r, Off(off(E, self.vec))), self.v, ir.PTR)
        return [Ptr(r), Ptr(s[0]), Ptr(s[1])]
    def bind(self, E, st, a): return {"v": Vec(E, st, self.v, ir.F32)} if self.v is not None else {}
    def pre(self, E, st, e): return (e["v"].wf() if e else []) + ([("p", E.vi > -(1 << 31))] if self.name == "p" else [])
    def val(self, E): return E.vf if self.kind == "f" else E.vi
    def throws(self, E, st, e): return TRUE if self.field is None else z3.Not(self.ok(self.val(E))) if self.ok else None
    def at(self, E): return Ptr(E.rg if self.onreg else E.m, Off(off(E, self.field)))
    def modifies(self, E, st, e):
        f = {(E.rg if self.onreg else E.m, off(E, self.field))} if self.field else set()
        f |= {(E.m, off(E, a)) for a in self.also} | {(E.m, off(E, "OnlineModel_reinit"))}
        if E.rg is not None and self.name == "t": f |= {E.rg}
        if e: f |= {e["v"].dr}
        return f
    def loop(self, L): return []
    def post(self, E, old, st, e, ret):
        if self.field is None: return []
        return [("the value is taken over exactly", E.load(st, self.at(E), ir.F32 if self.kind == "f" else ir.I32) == self.val(E))]
ALL = ("Perceptron", "OGD", "STG", "FOBOS_L1", "PET", "PA", "PAI", "PAII", "ALMA2", "RDA", "RDA_L1", "ERDA_L1", "SOP", "AROW", "SOFS", "CW", "ECCW", "AdaFOBOS", "AdaFOBOS_L1", "AdaFOBOS_OFS", "AdaRDA", "AdaRDA_L1", "AdaRDA_OFS", "FOFS")
FAM = {"OGD": ("OGD", "STG", "FOBOS_L1", "PET"), "RDA": ("RDA", "RDA_L1", "ERDA_L1"), "AROW": ("AROW", "SOFS"), "AdaFOBOS": ("AdaFOBOS", "AdaFOBOS_L1", "AdaFOBOS_OFS"), "AdaRDA": ("AdaRDA", "AdaRDA_L1", "AdaRDA_OFS")}
def contracts():
    c = []
    for k in ALL:
        c += [Set(k, "bias_eta", "f", "OnlineModel_bias", ge0), Set(k, "t", "i", "OnlineModel_t0", lambda v: v >= 0, ("OnlineModel_t",)), Set(k, "active_smoothness", "f", "OnlineModel_smooth", gt0), Set(k, "cost_margin", "f", "OnlineModel_cost", gt0, ("OnlineModel_costl",)), Set(k, "cost_margin", case="of several classes"), Set(k, "no such parameter")]
        if k in REG: c.append(Set(k, "lambda", "f", "Regularizer_lambda", onreg=True))
        elif k != "FOFS": c.append(Set(k, "lambda"))
        if k in ("PET", "SOFS", "AdaFOBOS_OFS", "AdaRDA_OFS"): c.append(Set(k, "B", "f", "Regularizer_lambda", onreg=True))
        elif k != "FOFS": c.append(Set(k, "B"))
        if REG.get(k, "").endswith("L1"): c.append(Set(k, "sparse_thresh", "f", "OnlineL1Regularizer_thr", onreg=True))
    for k in FAM["OGD"]: c += [Set(k, "power_t", "f", "OGD_power_t", ge0, ("OGD_pow",)), Set(k, "eta", "f", "OGD_eta", ge0)]
    for k in FAM["RDA"]: c += [Set(k, "sigma", "f", "RDA_sigma", gt0)]
    for k in FAM["AROW"]: c += [Set(k, "r", "f", "AROW_r")]
    for b in ("AdaFOBOS", "AdaRDA"):
        for k in FAM[b]: c += [Set(k, "eta", "f", b + "_eta", ge0), Set(k, "delta", "f", b + "_delta", gt0, vec=b + "_H")]
    c += [Set("STG", "k", "i", "STG_k", lambda v: v > 0), Set("ERDA_L1", "rou", "f", "ERDA_L1_rou", ge0), Set("PAI", "C", "f", "PAI_C"), Set("PAII", "C", "f", "PAII_C"), Set("SOP", "a", "f", "SOP_a"), Set("CW", "phi", "f", "CW_phi"), Set("CW", "a", "f", "CW_a", vec="CW_S"), Set("ECCW", "a", "f", "ECCW_a", vec="ECCW_S"),
          Set("FOFS", "eta", "f", "FOFS_eta", ge0), Set("FOFS", "lambda", "f", "FOFS_lambda", ge0), Set("FOFS", "B", "i", "FOFS_B", lambda v: v > 0),
          Set("ALMA2", "p", "i", "ALMA2_p", None, ("ALMA2_sp",)), Set("ALMA2", "alpha", "f", "ALMA2_alpha", unit, ("ALMA2_BB",)), Set("ALMA2", "C", "f", "ALMA2_C"), Set("ALMA2", "k", "i", "ALMA2_k", lambda v: v > 0)]
    return c
