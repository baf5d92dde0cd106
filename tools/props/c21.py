"""Hexadecimal coding: every case enumerated by TLC from Hex.tla replayed on the real functions."""
import json
import os
import random

import vf
from props import replay


def hx(bs):
    return bytes(bs).hex() or "-"


def inputs(chk, gen, n, more=()):
    rng = random.Random(chk.seed * 7 + 1)
    p = os.path.join(vf.scratch(), "in.json")
    with open(p, "w") as f:
        json.dump(list(more) + [gen(rng) for _ in range(n)], f)
    return p


def gen(rng):
    n = rng.choice([5, 7, 8, 19, 32, 40, 41, 63, 64, 65, 128, 129, 300, 1200])
    k = rng.random()
    if k < 0.4:
        return [rng.choice(b"0123456789abcdefABCDEF") for _ in range(n)]
    if k < 0.7:
        t = [rng.choice(b"0123456789abcdefABCDEF") for _ in range(n)]
        t[rng.randrange(n)] = rng.randrange(256)
        return t
    return [rng.randrange(256) for _ in range(n)]


def run(chk):
    b = vf.build("text_h", ["text_h.cpp"], "asan", libs=())
    p = inputs(chk, gen, 20000 if chk.thorough else 1500)
    r = vf.tlc("HexModel", "HexModelDeep" if chk.thorough else "HexModel", env={"INPUTS": p})
    chk.model_must_hold(r, "HexModel")
    vf.shutil.rmtree(os.path.dirname(p))
    cases = []
    for t, valid, data, hexed in r.printed("CASE"):
        a = hx(t)
        cases.append((f"fromhex {a}", hx(data) if valid else "no", "streaming conversion of hexadecimal text"))
        cases.append((f"tohex {a}", hx(hexed), "conversion of bytes to text"))
        for n in (0, 1, 2, 3, 4, 16, 20, 32, 64):
            if abs(2 * n - len(t)) <= 2:
                cases.append((f"fixed {a} {n}", hx(data) if valid and len(t) == 2 * n else "no", f"fixed-size ({n}) conversion of text"))
        if len(t) == 2:
            cases.append((f"pair {a}", hx(data) if valid else "no", "two digits to a byte"))
        if len(t) == 1:
            up = bytes(hexed).upper()
            cases.append((f"b2h {a}", hx(list(hexed) + [1, 1]) + " " + hx(list(up) + [1, 1]), "byte to two digits, lower and upper case"))
    # long texts: repetitions of the cases, decided by Parts
    some = r.printed("CASE")
    for t, valid, data, hexed in [x for x in some if len(x[0]) > 2 and x[1]][::max(1, len(some) // 40)][:12] + [x for x in some if len(x[0]) > 2 and not x[1]][:3]:
        for n in (256, 65536, 70001, 140003):
            k = n // len(t) + 1
            cases.append((f"tohex {hx(t * k)}", hx(hexed * k), "conversion of many bytes to text"))
            if len(t) % 2 == 0:
                cases.append((f"fromhex {hx(t * k)}", hx(data * k) if valid else "no", "streaming conversion of a long text"))
    ans, end = replay.run_parallel(b, [c[0] for c in cases])
    replay.compare(chk, cases, ans, end)
    for c in cases[:3]:
        chk.sample({"request": c[0], "expected": c[1]})
    chk.assumptions.append("texts beyond the enumerated lengths are sampled")
