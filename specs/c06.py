from irv.runner import Group, Battery
from specs.container import contracts
LEVEL = "proof"
NOTE = "growth, append, shrink, clear, copy, assignment and release of Vector, Matrix and SVector are under contract for every size, content and reference count"
ASSUMPTIONS = ["sizes below 2^38 elements (memory is finite); matrices below 2^20 rows x 2^18 columns", "exception clean-up paths are not verified"]
def groups(): return [Group("container.cc", contracts())]
def batteries(): return [Battery("container.cc", bounded=["element types other than float and index_t"], quick=8)]
