from irv.runner import Group, Battery
from specs.sort import contracts
LEVEL = "proof"
NOTE = "the recursive sort, the sortedness test and Sort are under contract for every example; multiset preservation is proved with a counting abstraction for an arbitrary pair"
ASSUMPTIONS = ["the two axioms of the counting function (a store changes the count of a pair by what it overwrites and what it writes)", "examples below 2^40 features"]
def groups(): return [Group("sort.cc", contracts())]
def batteries(): return [Battery("sort.cc", sources=["src/sol/pario/data_point.cc"], bounded=["stack depth of the recursion (up to 20000 features)"], quick=6)]
