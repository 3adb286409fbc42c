from irv.runner import Group, Battery
from specs.model import MODEL, pow_h
from specs.budget import contracts, HEAP
LEVEL = "proof"
NOTE = 'Update of PET, FOFS, SOFS, AdaFOBOS_OFS and AdaRDA_OFS and AdaRDA_OFS::EndTrain proved for every two-class state and example: features outside the selection end with weight zero, the heap operations used by contract; more classes, start of training and growth by a bounded battery'
ASSUMPTIONS = ['heap operations by the membership part of their contracts (C07): the number of selected features never changes', 'one classifier in the proofs; several classes, BeginTrain and update_dim by the bounded battery', 'feature indexes are at least 1, increasing and within the dimension (what Iterate establishes)', 'float operations are uninterpreted']
def groups(): return [Group("budget.cc", contracts(), ext=dict(HEAP, v_pow=pow_h), keep=list(HEAP))]
def batteries(): return [Battery("budget.cc", sources=MODEL, quick=10, bounded=['three and more classes', 'BeginTrain, update_dim and whole training histories'])]
