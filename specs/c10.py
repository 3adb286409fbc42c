from irv.runner import Group, Battery
from specs.model import contracts_c10, pow_h, ITEXT, MODEL
LEVEL = "proof"
NOTE = 'Iterate is proved for any learner, loss and regularizer behind its virtual calls; the update rules of twelve learners for two classes at every dimension, example and state; schedule of OGD'
ASSUMPTIONS = ['+, -, *, /, sqrt on floats are uninterpreted but fixed functions (sign symmetry of products and quotients is used)', 'examples have strictly increasing feature indexes from 1 on', 'distinct vectors of a learner do not share storage', 'pow of libm is a fixed function of its arguments', 'the schedule stored by set_power_t is the one called (both ends proved separately)', 'no active learning and no cost margin in the Iterate proof']
def groups(): return [Group("model.cc", contracts_c10(), ext=dict(ITEXT, v_pow=pow_h))]
def batteries(): return [Battery("model.cc", sources=MODEL, flags=["-DMODE=10"], quick=10, bounded=['ALMA2 and FOFS rules', 'more than one classifier for the learners other than Perceptron, OGD, PA, RDA', 'whole histories against a reference learner', 'cost-sensitive margins'])]
