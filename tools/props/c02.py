from props import queue_common as qc


def run(chk):
    qc.run(chk, live=True)
