"""File entries: path shapes and file kinds enumerated by TLC, replayed in a scratch tree; edits and copies of entries."""
import os
import shutil

import vf
from props import replay
from props.c21 import inputs


def gen(rng):
    ops = [["new", rng.randrange(4)]]
    for _ in range(rng.randint(3, 15)):
        k = rng.choice(["sum", "sum", "unsum", "root", "layer", "time", "copy", "move", "assign", "massign", "self"])
        a = {"sum": [rng.randint(1, 4), rng.randrange(200)], "unsum": [rng.randint(1, 4)], "root": [rng.randrange(200)], "layer": [rng.randrange(8)], "time": [rng.randrange(1, 10 ** 6)]}.get(k, [])
        ops.append([k] + a)
    return ops


def run(chk):
    b = vf.build("entry_h", ["entry_h.cpp"], "asan", prelude=True, repo_src=["src/file_entry.cpp"])
    p = inputs(chk, gen, 6000 if chk.thorough else 600)
    rc = vf.tlc("EntryCopy", "EntryCopyDeep" if chk.thorough else "EntryCopy", env={"INPUTS": p})
    chk.model_must_hold(rc, "EntryCopy")
    r = vf.tlc("EntryModel", "EntryModelDeep" if chk.thorough else "EntryModel", env={"INPUTS": p})
    chk.model_must_hold(r, "EntryModel")
    shutil.rmtree(os.path.dirname(p))
    cases = []
    for ops, e in rc.printed("COPY"):
        v2 = f"root={e['root']} layer={''.join(f'{x},' for x in e['layer'])}" if e["v2"] else "none"
        exp = f"k={e['k']} sums={''.join(f'{a}:{v},' for a, v in e['sums'])} v2={int(e['v2'])} "
        exp += ("" if e["v2"] else "") + v2 + f" time={e['time'] or '-'}"
        cases.append(("ops " + " ".join(":".join(map(str, o)) for o in ops), exp, "fields of the entry"))
    top = vf.scratch()
    try:
        w = os.path.join(top, "w")
        os.mkdir(w)
        links = []
        modes = [0o744, 0o654, 0o645, 0o711, 0o100]
        nx = 0
        for path, n in r.printed("WORLD")[0]:
            q = os.path.join(w, *path)
            if n["t"] == "dir":
                os.mkdir(q)
            elif n["t"] == "file":
                with open(q, "wb") as f:
                    f.write(b"x" * n["s"])
                os.chmod(q, modes[nx % 5] if n["x"] else 0o644)
                nx += n["x"]
            elif n["t"] == "pipe":
                os.mkfifo(q)
            else:
                links.append((path, q, n["to"]))
        for path, q, to in links:
            t = os.path.join(w, *to) if path[-1] == "abs" else os.path.relpath(os.path.join(w, *to), os.path.dirname(q))
            os.symlink(t, q)
        k = 0
        for cs, opt, d in r.printed("CASE"):
            exp = f"p={'/'.join(d['p'])} s={d['s']} a={d['a']} l={'/'.join(d['l']) or '-'}" if d["ok"] else (lambda g: g.startswith("refused"))
            rel = "/".join(cs)
            k += 1
            for root, file in ((w + "/R", w + "/" + rel), ("R", rel), (w + "/R/", rel), (w + "/./R2/../R", w + "/" + rel))[:4 if chk.thorough or len(cs) <= 3 else 1]:
                cases.append((f"mk {root} {file} {opt}", exp, f"entry for {rel} below R with options {opt}"))
        # beyond the enumerated shapes: a root the path does not lie in
        cases.append((f"mk {w}/R2 {w}/R/f 1", "refused", "file outside the root"))
        cases.append((f"mk {w}/R/s {w}/R/f 1", "refused", "file above the root"))
        cases.append((f"mk {w}/R/s {w}/R/s/t/g 1", "p=t/g s=12 a= l=-", "file below the root"))
        ans, end = replay.run_parallel(b, [c[0] for c in cases], cwd=w)
        cases = [(c[0].replace(w, ""), c[1], c[2]) for c in cases]
        replay.compare(chk, cases, ans, end)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    chk.sample({"request": cases[-1][0], "expected": cases[-1][1]})
    chk.sample({"request": cases[5][0], "expected": cases[5][1]})
    chk.assumptions.append("paths whose parent references cross a linked directory are read lexically and not checked")
