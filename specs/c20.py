from irv.runner import Group, Battery
from specs.param import contracts, PEXT, KEEP
from specs.model import MODEL
LEVEL = "proof"
NOTE = 'SetParameter of all 24 learners, per parameter name, proved: for every value the text may stand for, taken over exactly or refused by an exception; unknown names refused. loss, norm, filter, class numbers by a bounded battery'
ASSUMPTIONS = ['comparison, construction and copy of std::string, and std::stof/std::stoi, behave as the standard says (they give the number the text stands for or throw)', 'learners keep one classifier in the proof (and three for cost_margin); the battery uses up to five classes', 'the parameters loss, norm, filter, dim, model and the numbers of classes are not proved: bounded battery']
def groups(): return [Group("param.cc", contracts(), ext=PEXT, keep=KEEP)]
def batteries(): return [Battery("param.cc", sources=MODEL, quick=8, bounded=['loss, norm and the number of classes: all learners with two to five classes', 'the text of the value: 25 texts and random numbers'])]
