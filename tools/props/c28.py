"""Size literals and DHT node values against Units.tla."""
import os
import random

import vf
from props import replay
from props.c21 import hx, inputs


def limbs(v):
    out = []
    while v:
        out.append(v % 4096)
        v //= 4096
    return out


def run(chk):
    b = vf.build("units_h", ["units_h.cpp"], "asan", prelude=True, libs=())
    fixed = list(range(0, 70)) + [m * 10 ** k + d for k in range(2, 20) for m in (1, 5) for d in (-1, 0, 1)] + [2 ** k + d for k in range(1, 64) for d in (-1, 0, 1)] + [2 ** 64 - 1]
    rng = random.Random(chk.seed)
    vals = [v for v in fixed if v < 2 ** 64] + [rng.getrandbits(rng.randint(1, 64)) for _ in range(20000 if chk.thorough else 1500)]
    it = iter(vals)
    p = inputs(chk, lambda r: limbs(next(it)), len(vals))
    r = vf.tlc("UnitsModel", env={"INPUTS": p})
    vf.shutil.rmtree(os.path.dirname(p))
    chk.model_must_hold(r, "UnitsModel")

    def num(x):
        return sum(d * 4096 ** i for i, d in enumerate(x))
    cases = [(f"lit {u} {num(v)}", str(num(res)), "size literal") for u, v, res in r.printed("LIT")]
    for (h1, p1), (h2, p2), c in r.printed("NODE"):
        rel = f"{c} " + ("eq eq" if c == 0 else "ne ne") + (" lt" if c < 0 else " ge") + (" gt" if c > 0 else " le") + (" le" if c <= 0 else " gt") + (" ge" if c >= 0 else " lt")
        text = bytes(h1) + b":" + str(p1).encode()
        cases.append((f"node {hx(h1)} {p1} {hx(h2)} {p2}", f"{rel} {text.hex()} {hx(h1)} {p1} {hx(h2)} {p2}", "comparisons, text, fields"))
    ans, end = replay.run_parallel(b, [c[0] for c in cases])
    replay.compare(chk, cases, ans, end)
    chk.sample({"request": cases[5][0], "expected": cases[5][1]})
    chk.sample({"request": cases[-1][0], "expected": cases[-1][1]})
    chk.assumptions.append("literal values are boundary values and a sample of the 64-bit range")
