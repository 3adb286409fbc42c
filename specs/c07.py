from irv.runner import Group, Battery
from specs.heap import contracts
LEVEL = "proof"
NOTE = 'BuildHeap, UpdateHeap and isTopK of both heaps proved for every N, K and value array from the contract of AdjustHeap; AdjustHeap itself (its loop is beyond the solvers here), Init and set_N by a bounded check: every heap of up to 6 features with three values, every single update'
ASSUMPTIONS = ['the contract of Heap::AdjustHeap (used by the proofs) is itself only checked bounded: all heaps of up to 6 features with values from {0,1,2} and random histories', 'values are not NaN', 'fewer than 2^30 selected features']
def groups(): return [Group("heap.cc", contracts())]
def batteries(): return [Battery("heap.cc", quick=8, bounded=['Heap::AdjustHeap: exhaustive up to 6 features with three values, then random histories', 'Init, set_N'])]
