from irv.runner import Group, Battery
from specs.loss import contracts, x_handler
LEVEL = "proof"
NOTE = "loss() and gradient() of all ten losses are under contract in IEEE single/double arithmetic for every number of classes and all finite scores"
ASSUMPTIONS = ["exp is not negative and log is not negative from 1 on (libm)", "margin handlers only read their arguments", "scores are finite and above the smallest float; the given predicted label is a best-scoring class"]
def groups(): return [Group("loss.cc", contracts(), ext={"v_margin": x_handler})]
def batteries(): return [Battery("loss.cc", sources=["src/sol/loss/*.cc", "src/sol/pario/data_point.cc", "src/sol/util/reflector.cc"], quick=8, bounded=["max-score hinge gradient with a margin handler", "what a margin handler is shown", "values against real-number formulas to within rounding"])]
