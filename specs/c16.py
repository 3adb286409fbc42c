from irv.runner import Group, Battery
from specs.train import contracts_c16
from specs.model import MODEL
LEVEL = "proof"
NOTE = 'Model::PreProcess with CalibrateLabel and FilterFeatures, all norms, with and without a feature list, proved for every example and list'
ASSUMPTIONS = ['+, *, /, sqrt, |.| on floats are uninterpreted but fixed functions', 'the feature flags span the list\'s indexes (LoadPreSelFeatures, which reads a file, is covered by the bounded battery)', 'feature indexes are strictly increasing in the proof (the battery also uses duplicates)']
def groups(): return [Group("train.cc", contracts_c16())]
def batteries(): return [Battery("train.cc", sources=MODEL, flags=["-DMODE=16"], quick=8, bounded=['reading the list of pre-selected features from a file', 'the option values of "norm"', 'rounding of the normalised values'])]
