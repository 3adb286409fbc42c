from irv.runner import Group, Battery
from specs.num import contracts
LEVEL = "proof"
NOTE = 'ParseInt, ParseUint and ParseFloat proved for every text: reads stay inside it, text that is no number or is out of range is refused, a plain integer gives exactly its value; the readers and writers and the value of decimals by a bounded battery against strtof'
ASSUMPTIONS = ['texts are NUL-terminated and shorter than 2^31 characters', 'pow is a fixed function of its arguments', 'floating-point operations of ParseFloat are uninterpreted in the proof: its value is checked by the battery only']
def h_pow(E, st, a, I):
    """pow is a fixed function of its arguments"""
    import z3
    from irv.engine import FloatUF
    s = FloatUF.sort(8); return FloatUF.fn("pow", s, s, s)(a[0], a[1])
def groups(): return [Group("num.cc", contracts(), ext={"pow": h_pow})]
def batteries(): return [Battery('text.cc', sources=['src/sol/pario/[bdfs]*.cc', 'src/sol/pario/csv*.cc', 'src/sol/util/*.cc'], quick=12, bounded=['SVMReader, CSVReader, SVMWriter, CSVWriter on real files: generated well-formed, malformed and written records'])]
