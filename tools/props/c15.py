"""Tracker lists: call sequences enumerated by TLC, replayed on the real list and metafile."""
import os

import vf
from props import replay
from props.c21 import inputs

MAKES = [[[3, 1, 2], [5, 4]], [[2], [], [6, 1]], [[], [6, 5, 3, 1]], []]


def gen(rng):
    meta = rng.random() < .5
    ops = []
    if rng.random() < .3 and not meta:
        ops.append(["make", rng.choice(MAKES)])
    n = rng.choice([3, 6, 6, 12, 19])
    top = 5
    if not ops and rng.random() < .1:
        top = n = 19
        us = rng.sample(range(1, 20), rng.randint(8, 19))
        ops = [["add" if meta else rng.choice(["insert", "move", "emplace"]), u, t] for t, u in enumerate(us)]
    for _ in range(rng.randint(5, 40)):
        u, t = rng.randint(1, n), rng.randint(0, top)
        if meta:
            k = rng.choice(["add", "add", "add", "addend", "addend", "rm", "rmat", "copy"])
        else:
            k = rng.choice(["insert", "move", "emplace", "insert", "erase", "eraseit", "erase", "copy"])
        ops.append([k] if k == "copy" else [k, u] if k in ("addend", "rm") else [k, u, t])
        if rng.random() < .02:
            ops.append(["clear"])
    return ops


# more tiers, and more URLs in a tier, than a byte counts
LONG = [[["addend", u] for u in range(1, 301)] + [["add", 300, 0], ["rm", 150], ["add", 7, 298], ["rmat", 8, 7], ["copy"]],
        [["add", u, 0] for u in range(300, 0, -1)] + [["addend", 260], ["rm", 259], ["copy"]]]


def text(o):
    if o[0] == "make":
        return f"make:{MAKES.index(o[1])}"
    return ":".join(map(str, o))


def show(ts):
    return "".join("".join(f"{u}," for u in t) + "/" for t in ts)


def run(chk):
    b = vf.build("metaset_h", ["metaset_h.cpp"], "asan", lib="meta")
    p = inputs(chk, gen, 8000 if chk.thorough else 800, [[["make", x]] for x in MAKES] + LONG)
    cases = []
    for k in ("meta", "list"):
        r = vf.tlc("TrackersModel", f"TrackersModel_{k}" + ("Deep" if chk.thorough else ""), env={"INPUTS": p}, mem="8g")
        chk.model_must_hold(r, "TrackersModel " + k)
        for ops, obs in r.printed("CASE"):
            cases.append(("T " + " ".join(text(o) for o in ops), show(obs[-1]), "tiers of the tracker list"))
        if k == "meta":
            for ops, obs in r.printed("LONG"):
                cases.append(("T " + " ".join(text(o) + "." for o in ops), "".join(show(o) + " " for o in obs), "tiers of the tracker list after every call"))
    vf.shutil.rmtree(os.path.dirname(p))
    ans, end = replay.run_parallel(b, [c[0] for c in cases])
    replay.compare(chk, cases, ans, end)
    chk.sample({"calls": cases[100][0], "tiers": cases[100][1]})
    chk.sample({"calls": cases[-1][0], "tiers": cases[-1][1]})
    chk.assumptions.append("calls outside the documented preconditions (a tier beyond the next new one) are not made")
