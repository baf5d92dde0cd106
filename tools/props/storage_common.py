"""File storages: edit sequences and layouts enumerated by TLC, replayed on the real storage."""
import json
import os

import vf
from props import replay
from props.c21 import inputs

PROBES = [["d"], ["d", "e"], ["e"], ["di"], []]


def size(s):
    return s[0] * 16384 + s[1]


def path(p):
    return "/".join(str(size(x)) if isinstance(x, list) else str(x) for x in p)


def op_text(op, seen):
    k = op[0]
    if k == "add":
        f = op[1]
        return f"pad:{size(f['s'])}" if f["k"] == "pad" else f"add:{path(f['p'])}:{size(f['s'])}:{f['id']}"
    if k == "del":
        return "del:" + path(op[1])
    if k == "q":
        o = next(seen)
        return "q:" + ",".join(path(x["d"]) for x in o["probes"])
    return ":".join(map(str, op))


def obs_text(s):
    o = s["o"]
    num = lambda xs: "".join(f"{size(x)}," for x in xs)
    files = "".join((f"pad:{path(f['p'])}:{size(f['s'])}" if f["k"] == "pad" else f"file:{path(f['p'])}:{size(f['s'])}:{f['id']}") + "," for f in o["files"])
    r = f"n={o['n']} reg={o['reg']} total={size(o['total'])} totalreg={size(o['totalreg'])} psize={1 << o['e'] if o['e'] else 0} pieces={o['pieces']} mode={o['mode']}"
    r += f" files={files} v1=" + "".join(f"{x}," for x in o["v1"]) + " spans=" + "".join(f"{a}-{b}," for a, b in o["spans"])
    r += f" starts={num(o['starts'])} ends={num(o['ends'])} ends2={num(o['ends2'])} aligned={o['aligned']} dirs={o['dirs']} dirsnopad={o['dirsnopad']}"
    r += f" proto={o['proto'] if o['proto'] >= 0 else '?'}"
    r += " list=" + "".join(path(x["d"]) + ":" + "".join(f"{i}." for i in sorted(x["in"])) + f"{x['dirs']}/{x['nopad']}/{x['pad']}" + "," for x in s["probes"])
    return r


def matches(exp):
    def ok(got):
        gs, es = got.split("|"), exp.split("|")
        if len(gs) != len(es):
            return False
        for g, e in zip(gs, es):
            if " proto=?" in e:
                a, b = e.split(" proto=?")
                if not (g.startswith(a + " proto=") and g.endswith(b) and len(g) == len(e)):
                    return False
            elif g != e:
                return False
        return True
    return ok


SZ = [[0, 0], [0, 1], [0, 100], [0, 16383], [1, 0], [1, 1], [2, 0], [3, 5], [7, 16383], [8, 0], [63, 1], [64, 0], [1024, 0], [300000, 17], [262144, 0], [5000000, 3]]
NAMES = ["a", "b", "d", "d2", "d.2", "d-x", "dir", "dir2", "dir+1", "e", "x_y", "z.z", "..q"]


def gen(rng):
    ops = []
    known = []
    small = rng.random() < .5
    for _ in range(rng.randint(4, 30)):
        k = rng.random()
        if k < .5 or not known:
            p = [rng.choice(NAMES) for _ in range(rng.randint(0, 3))] + [rng.choice(NAMES) + rng.choice(["f", "1f", "zf"])]
            if p in known:
                continue
            known.append(p)
            ops.append(["add", p, rng.choice(SZ[:10] if small else SZ), rng.randrange(100) + rng.choice([0, 100])])
        elif k < .6:
            ops.append(["del", rng.choice(known)])
        elif k < .7:
            ops.append(["piece", rng.choice([14, 15, 16, 18, 20, 24])])
        elif k < .78:
            ops.append([rng.choice(["copy", "assign", "move", "massign"])])
        elif k < .84:
            ops.append(["align"] if rng.random() < .7 else ["clear"])
        elif k < .88:
            ops.append(["choose"])
        elif k < .92 and small:
            ops.append(["alloc"])
            ops += [["hash", rng.randint(1, 3), rng.randrange(1, 255)] for _ in range(rng.randrange(3))]
        elif k < .92:
            ops.append([rng.choice(["alloc", "clear"])])
        else:
            ops.append(["mode", rng.choice(["single", "multi"])])
        if rng.random() < .25:
            ops.append(["q"])
    return ops + [["q"]]


def edits(chk):
    b = vf.build("storage_h", ["storage_h.cpp"], "asan", prelude=True, repo_src=["src/file_storage.cpp", "src/file_entry.cpp", "src/hasher/backends/openssl.cpp"])
    p = inputs(chk, gen, 4000 if chk.thorough else 400)
    r = vf.tlc("StorageModel", "StorageModelDeep" if chk.thorough else "StorageModel", env={"INPUTS": p}, mem="8g")
    vf.shutil.rmtree(os.path.dirname(p))
    chk.model_must_hold(r, "StorageModel")
    cases = []
    for ops, seen in r.printed("CASE"):
        if not any(o[0] == "q" for o in ops):
            ops = ops + [["q"]]
        it = iter(seen)
        line = " ".join(op_text(o, it) for o in ops)
        cases.append((line, matches("".join(obs_text(s) + "|" for s in seen)), "queries of the storage after " + line[:200] + "; expected " + obs_text(seen[-1])[:600]))
    ans, end = replay.run_parallel(b, [c[0] for c in cases])
    replay.compare(chk, cases, ans, end)
    chk.sample({"edits": cases[40][0], "expected": cases[40][2]})
    chk.sample({"edits": cases[0][0][:300]})
