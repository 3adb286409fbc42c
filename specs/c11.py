from irv.runner import Group, Battery
from specs.model import contracts_c11, pow_h, ITEXT, MODEL
LEVEL = "proof"
NOTE = 'TrainPredict and EndTrain of all lazily truncated learners, the bookkeeping of update times and the final threshold are proved for two classes at every dimension, example and state; truncation itself in IEEE arithmetic'
ASSUMPTIONS = ['+, -, *, /, sqrt on floats are uninterpreted but fixed functions (sign symmetry of products and quotients is used)', 'examples have strictly increasing feature indexes from 1 on', 'distinct vectors of a learner do not share storage']
def groups(): return [Group("model.cc", contracts_c11(), ext=dict(ITEXT, v_pow=pow_h))]
def batteries(): return [Battery("model.cc", sources=MODEL, flags=["-DMODE=11"], quick=10, bounded=['more than one classifier', 'equality with truncation after every iteration over whole histories'])]
