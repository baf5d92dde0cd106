"""Work-queue processor: histories of the real class under controlled schedules are behaviours of Processor.tla."""
import random

import vf
from props import sched

# (queue capacity, workers, main ops, other threads)
CURATED = [
    (4, 1, "start put:1 put:2 stop wait", []),
    (4, 2, "start put:1 put:2 put:3 stop wait", []),
    (1, 1, "start put:1 put:2 put:3 stop wait", []),
    (1, 2, "start put:1 put:2 stop wait", []),
    (1, 3, "start put:1 stop wait", []),
    (2, 2, "put:1 put:2 start put:3 stop wait", []),
    (3, 1, "put:1 put:2 put:3 start stop wait", []),
    (4, 2, "put:1 put:2 put:3 put:4 start stop wait", []),
    (2, 2, "start stop wait", []),
    (2, 2, "start cancel wait", []),
    (2, 1, "start put:1 put:2 cancel wait", []),
    (4, 2, "put:1 put:2 put:3 start cancel wait", []),
    (4, 1, "put:1 put:2 put:3 start cancel wait", []),
    (1, 2, "start put:1 put:2 cancel wait", []),
    (2, 1, "start put:1 put:2 stop cancel wait", []),
    (2, 1, "start put:1 destroy", []),
    (1, 2, "start put:1 put:2 destroy", []),
    (2, 2, "start put:1 cancel destroy", []),
    (2, 2, "start cancel destroy", []),
    (2, 1, "start destroy", []),
    (2, 2, "destroy", []),
    (2, 2, "put:1 destroy", []),
    (2, 2, "put:1 wait state start state stop wait destroy", []),
    (2, 2, "start put:1 stop wait wait destroy", []),
    (2, 2, "state start state put:1 cancel state wait state destroy", []),
    (2, 1, "state put:1 state start state put:2 state stop state wait state", []),
    (1, 2, "start state put:1 put:2 state stop wait state wait state destroy", []),
    (3, 2, "put:1 put:2 start put:3 state cancel state wait state", []),
    (2, 3, "start state stop state wait state", []),
    (2, 1, "cancel state wait state", []),
    (2, 2, "start join stop wait", ["put:1 put:2", "put:3"]),
    (1, 2, "start join stop wait", ["put:1 put:2", "put:3"]),
    (1, 1, "start join destroy", ["put:1", "put:2"]),
    (2, 2, "start put:1 fork wait", ["put:2 stop"]),
    (2, 1, "start put:1 fork wait", ["stop"]),
    (2, 2, "start put:1 put:2 fork wait", ["cancel"]),
    (2, 1, "start put:1 put:2 fork wait", ["put:3 stop"]),
    (2, 3, "start put:1 fork stop wait", ["cancel"]),
    (3, 2, "start put:1 put:2 put:3 wait", []),
    (2, 0, "start wait destroy", []),
]


def random_prog(rng):
    cap, nw = rng.choice([1, 1, 2, 3, 4]), rng.choice([1, 1, 2, 2, 3])
    nt = rng.choice([0, 0, 1, 2])
    n = rng.randint(0, 6)
    ths = [[] for _ in range(nt)]
    pre, main = [], []
    for i in range(1, n + 1):
        w = rng.randrange(nt + 1)
        if w:
            ths[w - 1].append(f"put:{i}")
        else:
            (pre if rng.random() < .4 and len(pre) < cap else main).append(f"put:{i}")
    ops = pre + ["start"] + main + (["join"] if nt else [])
    ops += rng.choice([["stop", "wait"], ["stop", "wait", "destroy"], ["cancel", "wait"], ["stop", "cancel", "wait"], ["destroy"], ["cancel", "destroy"]])
    return cap, nw, " ".join(ops), [" ".join(t) for t in ths if t]


def run(chk):
    binary = vf.build("proc_h", ["proc_h.cpp", "vsched.cpp"], "sched", libs=())
    chk.model_must_hold(vf.tlc("ProcessorModel", workers=4), "ProcessorModel")
    for c in ["ProcessorImpl_a", "ProcessorImpl_b", "ProcessorImpl_c"] + ["ProcessorImpl_deep"] * chk.thorough:
        chk.model_must_hold(vf.tlc("ProcessorImpl", c, workers=4), c)
    rng = random.Random(chk.seed * 37 + 5)
    t = chk.thorough
    lines = []
    for k, (cap, nw, own, ths) in enumerate(CURATED):
        prog = " | ".join([own] + ths)
        b = (2 if nw + len(ths) < 2 else 1) + t
        lines.append(f"d{k} {cap} {nw} dfs {b} 0 {200000 if t else 2500} {60 if t else 3} {chk.seed} | {prog}")
        lines.append(f"r{k} {cap} {nw} rand 0 1 {30000 if t else 600} {30 if t else 2} {chk.seed} | {prog}")
    for k in range(400 if t else 60):
        cap, nw, own, ths = random_prog(rng)
        lines.append(f"g{k} {cap} {nw} rand 0 1 {5000 if t else 300} {8 if t else 2} {chk.seed + k} | " + " | ".join([own] + ths))
    sched.run(chk, binary, lines, "ProcessorTrace", "ProcessorTrace",
              hist=lambda o: {"n": o["n"], "ev": o["h"], "stuck": o["st"] in ("stuck", "limit")}, ends=("done", "stuck", "limit"),
              kind="not a behaviour of the processor specification")
    chk.assumptions.append("no item is added after a stop or cancellation was requested and one thread waits, as the class documents; a run of 6000 steps under a fair schedule that has not ended never ends")
