from irv.runner import Group, Battery
from specs.iter import contracts_run, contracts_next, Run, Next, DEQ, ENQ, START
LEVEL = "proof"
NOTE = 'DataReadTask::run and DataIter::Next proved against every data source, batch, number of readers and passes, using the queue through its contract; ending early (the destructor) by bounded schedule exploration of the real classes'
ASSUMPTIONS = ['Enqueue and Dequeue behave as property C12 says, and Thread::Start runs DataReadTask::run in a thread of its own', 'batch sizes are at least 1', 'the destructor of DataIter is not proved: bounded schedule exploration stands in']
def groups(): return [Group("iter.cc", contracts_run(), ext=Run.ext, keep=[DEQ, ENQ]), Group("iter.cc", contracts_next(), ext=Next.ext, keep=[DEQ, ENQ, START])]
SRC = ["src/sol/pario/data_reader.cc", "src/sol/pario/data_point.cc", "src/sol/pario/file_reader.cc", "src/sol/util/*.cc", "src/sol/math/*.cc"]
def batteries(): return [Battery("iter.cc", sources=SRC, san=["-fsanitize=undefined"], quick=10, bounded=['destruction of DataIter at any point: random schedules over at most 3 data sets of at most 11 records', 'absence of deadlock over those schedules'])]
