"""Saving and loading on a failing device: call sequences and failure points enumerated by TLC, replayed on real files."""
import json
import os
import random

import vf
from props import replay

LEVEL = "model_checking"


def gen(rng, sizes):
    ops = []
    for _ in range(rng.randint(3, 9)):
        m = rng.randint(1, len(sizes))
        s = sizes[m - 1]
        k = rng.choice([-1, -1, rng.randint(0, s), rng.randint(0, s), s, s + rng.randint(0, 9)])
        ops.append(rng.choice([["save", m, k], ["save", m, k], ["save", m, -1], ["load", -1], ["load", rng.randint(0, s)], ["bad"], ["remove"], ["saveat", rng.choice(["dir", "missing", "full"])], ["loadat", "dir"]]))
    return ops


def same(exp):
    def f(got):
        g = [x.split(",") for x in got.split()]
        if len(g) != len(exp):
            return False
        for (file, ok, what), (gok, gwhat, gfile) in zip(exp, g):
            if what != -1 and gok != "?":              # -1: anything; ?: the failure was not met
                if gok != ("1" if ok else "0") or ok and int(gwhat) != what:
                    return False
            elif gok == "1" and what == -1 and int(gwhat) not in (0, 99) and int(gfile) != int(gwhat):
                return False                           # loaded something other than what is there
            if file >= 0 and int(gfile) != file:
                return False
        return True
    return f


def run(chk):
    b = vf.build("save_h", ["save_h.cpp"], "asan", lib="meta")
    sc = vf.scratch()
    (ans,), end = replay.run_lines(b, ["sizes"], args=[sc])
    if end or ans.startswith("DIED"):
        chk.violation("sizes", f"writing plain metafiles failed: {ans} {end}", {"answer": ans, "end": end})
        return
    sizes = [int(x) for x in ans.split()]
    rng = random.Random(chk.seed * 31 + 5)
    p = os.path.join(sc, "in.json")
    with open(p, "w") as f:
        json.dump([sizes, [gen(rng, sizes) for _ in range(20000 if chk.thorough else 1500)]], f)
    r = vf.tlc("SavingModel", "SavingModelDeep" if chk.thorough else "SavingModel", env={"INPUTS": p}, mem="8g")
    chk.model_must_hold(r, "SavingModel")
    cases = [("seq " + " ".join(":".join(map(str, o)) for o in ops), same(exp), f"calls {ops} (expected after each: {exp})") for ops, exp in r.printed("CASE")]
    for m, k, s in r.printed("STREAM"):
        def ok(got, s=s):
            good, n, pre = got.split()[:3] if len(got.split()) >= 3 else ("", "0", "")
            return good == ("1" if s["good"] else "0") and pre == "1" and (int(n) == s["most"] if s["good"] else int(n) <= s["most"])
        cases.append((f"stream {m} {k}", ok, f"writing metafile {m} to a stream that takes {k} bytes"))
    ans, end = replay.run_parallel(b, [c[0] for c in cases], args=[sc])
    replay.compare(chk, cases, ans, end)
    vf.shutil.rmtree(sc, ignore_errors=True)
    chk.cov["failure_points_not_met"] = sum(a.count("?,") for a in ans)
    chk.sample({"calls": cases[0][0], "answer": ans[0]})
    chk.sample({"calls": cases[-1][0], "answer": ans[-1]})
    chk.assumptions.append("device errors are injected through the file size limit, /dev/full and the read call; what a failed save leaves in the file is not specified")
