from irv.runner import Group, Battery
from specs.train import contracts_c21, TEXT, PRE
from specs.model import MODEL
LEVEL = "proof"
NOTE = 'OnlineModel::Train and Model::Test proved against an arbitrary learner and data source: every example of every batch preprocessed and processed once, in order; rate = mistakes / examples; progress reports agree'
ASSUMPTIONS = ['conversion to float and division are uninterpreted but fixed functions', 'a learner\'s Iterate counts one example (proved for OnlineLinearModel::Iterate under C10)', 'batches come from DataIter::Next (C13)', 'Model::Test without an output stream in the proof; the stream is covered by the bounded battery', 'training starts without an exception from BeginTrain']
def groups(): return [Group("train.cc", contracts_c21(), ext=TEXT, keep=[PRE])]
def batteries(): return [Battery("train.cc", sources=MODEL, flags=["-DMODE=21"], quick=10, bounded=['the predictions written by Model::Test', 'the progress schedule', 'real data files, batch sizes and passes'])]
