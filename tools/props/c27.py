"""Aligned allocator: request sequences from AllocModel run on the real allocator, the addresses validated against Alloc.tla."""
import json
import random

import vf
from props import replay, sched

ENV = {"ASAN_OPTIONS": "detect_leaks=1:allocator_may_return_null=1"}


def compress(ev):
    """addresses replaced by their ranks (order is all the specification needs)"""
    pts = sorted({x for e in ev if e[0] == "alloc" for x in e[2:4]})
    rank = {p: i for i, p in enumerate(pts)}
    return [[e[0], e[1], rank[e[2]], rank[e[3]], e[4]] if e[0] == "alloc" else e for e in ev]


def random_seq(rng):
    h, live = [], []
    for i in range(1, rng.randint(8, 40)):
        if live and rng.random() < 0.4:
            h.append(f"f:{live.pop(rng.randrange(len(live)))}")
            continue
        c = rng.choice(["0", "over", "over2", "max", "all"]) if rng.random() < 0.1 else str(rng.choice([1, 2, 3, 7, 8, 15, 16, 31, 63, 64, 65, 100, 511, 4096, 16385, rng.randint(1, 70000)]))
        h.append(f"a:{rng.choice(['b64', 'u32x64', 's24x32', 'b4096', 'u16x16', 'd8'])}:{c}")
        if c.isdigit() and c != "0":
            live.append(i)
    return h


def run(chk):
    b = vf.build("alloc_h", ["alloc_h.cpp"], "asan", extra=["-include", "functional"], libs=())
    t = chk.thorough
    m = vf.tlc("AllocModel", "AllocModelDeep" if t else "AllocModel")
    chk.model_must_hold(m, "AllocModel")
    seqs = [[f"a:{e[1]}:{e[2]}" if e[0] == "a" else f"f:{e[1]}" for e in h] for h in m.printed("SEQ")]
    rng = random.Random(chk.seed)
    seqs += [random_seq(rng) for _ in range(5000 if t else 800)]
    lines = ["a " + " ".join(s) for s in seqs]
    ans, end = replay.run_parallel(b, lines, env=ENV)
    hs, src = [], []
    for ln, a in zip(lines, ans):
        if a == "SKIPPED":
            continue
        if not a.startswith("["):
            chk.violation(ln[:200], f"{ln}: {a}", {"input": ln, "got": a})
            continue
        hs.append({"ev": compress(json.loads(a))})
        src.append((ln, a))
    for i in sched.validate(chk, hs, "AllocTrace", "AllocTrace", "allocation histories"):
        chk.violation(src[i][0][:200], f"not a behaviour of the allocator specification: {src[i][0]} -> {src[i][1][:600]}", {"input": src[i][0], "got": src[i][1]})
    chk.traces += len(hs)
    if end:
        chk.violation("process end", end, {"end": end})
    chk.sample({"requests": lines[100], "history": hs[100]})
    m = vf.tlc("BufferModel", "BufferModelDeep" if t else "BufferModel")
    chk.model_must_hold(m, "BufferModel")

    def show(s):
        return "[" + "".join(f"{x} " for x in s) + "]"
    cases = [("b " + " ".join(h), show(v) + show(w), "contents of the two containers") for h, v, w in m.printed("SEQ")]
    ans, end = replay.run_parallel(b, [c[0] for c in cases], env=ENV)
    replay.compare(chk, cases, ans, end)
    chk.sample({"operations": cases[1000][0], "expected": cases[1000][1]})
    chk.assumptions.append("addresses are compared by order (rank), alignment by the remainder the harness reports")
