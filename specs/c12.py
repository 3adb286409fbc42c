from irv.runner import Group, Battery
from specs.queue import contracts, QEXT
LEVEL = "proof"
NOTE = 'constructor and single-element Enqueue/Dequeue proved as monitor operations, for every capacity, history, number of threads and schedule; the list forms by bounded schedule exploration'
ASSUMPTIONS = ['pthread mutexes give mutual exclusion and pthread conditions wake as POSIX says; every other thread uses the queue only through its operations (monitor reasoning)', 'capacity below 2^28', 'that notifying as many waiters as there are new elements or slots suffices for progress is argued on paper; the obligations are that it is done', 'the list forms of Enqueue and Dequeue are not proved: bounded schedule exploration stands in']
def groups(): return [Group("queue.cc", contracts(), ext=QEXT)]
def batteries(): return [Battery("queue.cc", sources=[], san=["-fsanitize=undefined"], quick=10, bounded=['the list forms of Enqueue and Dequeue: random schedules of up to a few threads on small queues', 'absence of deadlock over those schedules'])]
