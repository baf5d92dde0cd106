"""Metafile collections and fields: edit sequences enumerated by TLC, replayed on the real metafile."""
import os

import vf
from props import replay
from props.c21 import inputs

LISTS = ["web", "http", "node", "similar", "collection"]
SCALARS = ["name", "comment", "created_by", "date", "source", "private", "cross"]


def gen(rng):
    ops = []
    for _ in range(rng.randint(5, 60)):
        k = rng.random()
        if k < .8:
            ops.append([rng.choice(["add", "add", "add", "rm"]), rng.choice(LISTS), rng.randint(1, rng.choice([3, 6, 40]))])
        elif k < .83:
            ops.append(["clear", rng.choice(LISTS)])
        elif k < .92:
            f = rng.choice(SCALARS)
            ops.append(["set", f, rng.randint(0, 1) if f in ("private", "cross") else rng.randint(0, 10 ** 9) if f == "date" else rng.randint(0, 50)])
        else:
            ops.append([rng.choice(["copy", "move", "assign", "massign"])])
    return ops


# more elements than a byte counts
LONG = [[["add", c, v] for c in LISTS for v in range(1, 321)] + [["add", c, v] for c in LISTS for v in (1, 255, 256, 257, 320)] + tail
        for tail in ([["copy"]], [["rm", c, v] for c in LISTS for v in (1, 128, 256, 257, 320)] + [["massign"]], [["rm", c, v] for c in LISTS for v in range(320, 3, -1)], [["clear", c] for c in LISTS[::2]] + [["move"]])]


def run(chk):
    b = vf.build("metaset_h", ["metaset_h.cpp"], "asan", lib="meta")
    p = inputs(chk, gen, 8000 if chk.thorough else 800, LONG)
    r = vf.tlc("MetaSetsModel", env={"INPUTS": p}, mem="8g")
    vf.shutil.rmtree(os.path.dirname(p))
    chk.model_must_hold(r, "MetaSetsModel")
    cases = []
    for ops, m in r.printed("CASE"):
        exp = " ".join(f"{k}=" + "".join(f"{x}," for x in m[k]) for k in LISTS) + "".join(f" {k}={m[k]}" for k in SCALARS)
        cases.append(("M " + " ".join(":".join(map(str, o)) for o in ops), exp, "contents of the metafile"))
    ans, end = replay.run_parallel(b, [c[0] for c in cases])
    replay.compare(chk, cases, ans, end)
    chk.sample({"edits": cases[0][0][:400], "contents": cases[0][1]})
    chk.sample({"edits": cases[-1][0], "contents": cases[-1][1]})
