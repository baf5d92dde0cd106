import vf
from props import queue_common as qc


def run(chk):
    b = vf.build("queue_h", ["queue_h.cpp", "vsched.cpp"], "sched", libs=())
    qc.sequential(chk, b)
    qc.run(chk, live=False)
