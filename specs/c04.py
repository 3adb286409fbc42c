from irv.runner import Group, Battery
from specs.ops import contracts
LEVEL = "proof"
NOTE = "every vector expression the learners use (dense, dense-sparse, sparse-scalar, dot products, norms) is under contract for all sizes, contents and examples with increasing indexes; the result is equal operation by operation"
ASSUMPTIONS = ["floating-point operations are uninterpreted functions (with commutativity): the contracts fix which operations are applied to which entries and in which order", "examples have strictly increasing indexes (kept by the readers' Sort, C03)"]
def groups(): return [Group("ops.cc", contracts())]
def batteries(): return [Battery("ops.cc", quick=8, bounded=["matrices with several rows", "values to within rounding"])]
