"""Object pool: histories of the real pool under controlled schedules are behaviours of Pool.tla."""
import random

import vf
from props import sched

# (capacity, initial stock or -1 for the one-argument constructor, owner ops, releasing threads)
CURATED = [
    (1, -1, "get:1 get:2 rel:2", ["rel:1"]),
    (1, 0, "get:1 get:2 get:3 rel:3", ["rel:1 rel:2"]),
    (1, 1, "get:1 rel:1 size get:2 rel:2 size", []),
    (2, -1, "get:1 get:2 get:3 size", ["rel:1", "rel:2 rel:3"]),
    (2, 1, "get:1 get:2 get:3 get:4", ["rel:1 rel:3", "rel:2 rel:4"]),
    (2, 2, "get:1 get:2 get:3 size rel:3 size", ["rel:1", "rel:2"]),
    (3, 1, "get:1 get:2 get:3 get:4 get:5", ["rel:1 rel:2 rel:3", "rel:4 rel:5"]),
    (2, -1, "get:1 get:2 close", ["rel:1", "rel:2"]),
    (2, 2, "get:1 close", ["rel:1"]),
    (1, -1, "get:1 close rel:1", []),
    (3, 3, "get:1 get:2 close rel:2", ["rel:1"]),
    (1, -1, "get:1 cp:1:11 get:2 rel:2", ["rel:1", "rel:11"]),
    (2, -1, "get:1 cp:1:11 cp:1:12 get:2 get:3", ["rel:1", "rel:11 rel:12", "rel:2 rel:3"]),
    (1, -1, "get:1 cp:1:11 close", ["rel:1", "rel:11"]),
    (2, 1, "get:1 move get:2 get:3 size", ["rel:1", "rel:2 rel:3"]),
    (1, -1, "get:1 get:2", []),
    (2, -1, "get:1 get:2 get:3 get:4", ["rel:1"]),
    (2, 0, "size get:1 size rel:1 size get:2 size get:3 size rel:2 size rel:3 size close", []),
    (3, 2, "size get:1 get:2 get:3 size rel:2 rel:1 rel:3 size get:4 size get:5 cp:4:6 rel:4 size rel:6 size rel:5 size", []),
    (0, 0, "size", []),
    (1, -1, "get:1 rel:1 get:2 rel:2 get:3 rel:3 close", []),
]


def random_prog(rng):
    cap = rng.choice([1, 1, 2, 2, 3])
    init = rng.choice([-1, -1] + list(range(cap + 1)))
    n = rng.randint(2, 5)
    nt = rng.randint(1, 3)
    ths = [[] for _ in range(nt)]
    ops, mine, nxt = [], [], 50
    for k in range(1, n + 1):
        ops.append(f"get:{k}")
        refs = [k]
        while rng.random() < 0.25:
            nxt += 1
            ops.append(f"cp:{k}:{nxt}")
            refs.append(nxt)
        own = [r for r in refs if rng.random() < 0.15]
        for r in refs:
            if r in own:
                mine.append(r)
            else:
                ths[rng.randrange(nt)].append(f"rel:{r}")
        if mine and rng.random() < 0.7:
            ops.append(f"rel:{mine.pop()}")
        if rng.random() < 0.2:
            ops.append("size")
        if rng.random() < 0.1:
            ops.append("move")
    if rng.random() < 0.4:
        ops.append("close")
    return cap, init, " ".join(ops), [" ".join(t) for t in ths if t]


def run(chk):
    binary = vf.build("pool_h", ["pool_h.cpp", "vsched.cpp"], "sched", libs=())
    chk.model_must_hold(vf.tlc("PoolModel", workers=4), "PoolModel")
    rng = random.Random(chk.seed * 31 + 5)
    t = chk.thorough
    lines = []
    for k, (cap, init, own, ths) in enumerate(CURATED):
        b = 1 + (len(ths) < 2) + t
        prog = " | ".join([own] + ths)
        lines.append(f"d{k} {cap} {init} dfs {b} 0 {200000 if t else 5000} {60 if t else 4} {chk.seed} | {prog}")
        if ths:
            lines.append(f"r{k} {cap} {init} rand 0 1 {30000 if t else 1000} {30 if t else 3} {chk.seed} | {prog}")
    for k in range(400 if t else 60):
        cap, init, own, ths = random_prog(rng)
        lines.append(f"g{k} {cap} {init} rand 0 1 {5000 if t else 400} {8 if t else 2} {chk.seed + k} | " + " | ".join([own] + ths))
    sched.run(chk, binary, lines, "PoolTrace", "PoolTrace", kind="not a behaviour of the pool specification")
    chk.assumptions.append("requests come from one thread at a time, as the pool documents")
