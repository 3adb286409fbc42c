from irv.runner import Group, Battery
from specs.model import contracts_c05, pow_h, ITEXT, MODEL
LEVEL = "proof"
NOTE = 'Predict and TrainPredict are proved for two classes at every dimension, example and weight vector; two unrolled classifiers for the multi-class path'
ASSUMPTIONS = ['+, -, *, /, sqrt on floats are uninterpreted but fixed functions (sign symmetry of products and quotients is used)', 'examples have strictly increasing feature indexes from 1 on', 'distinct vectors of a learner do not share storage', 'multi-class scores are finite']
def groups(): return [Group("model.cc", contracts_c05(), ext=dict(ITEXT, v_pow=pow_h))]
def batteries(): return [Battery("model.cc", sources=MODEL, flags=["-DMODE=5"], quick=8, bounded=['more than two classifiers', 'learners with a feature budget'])]
