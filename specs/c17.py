from irv.runner import Group, Battery
from specs.model import contracts_c17, pow_h, ITEXT, MODEL
LEVEL = "proof"
NOTE = 'update_dim of nine learners and of the base class is proved for two classes at every old and new dimension'
ASSUMPTIONS = ['+, -, *, /, sqrt on floats are uninterpreted but fixed functions (sign symmetry of products and quotients is used)', 'examples have strictly increasing feature indexes from 1 on', 'distinct vectors of a learner do not share storage']
def groups(): return [Group("model.cc", contracts_c17(), ext=dict(ITEXT, v_pow=pow_h))]
def batteries(): return [Battery("model.cc", sources=MODEL, flags=["-DMODE=17"], quick=8, bounded=['FOFS, PET, SOFS and the OFS learners', 'more than one classifier', 'growing and preset dimension give the same model over whole histories'])]
