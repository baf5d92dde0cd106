"""Percent coding: the escape machine of Percent.tla, every enumerated text replayed on the real functions."""
import os

import vf
from props import replay
from props.c21 import hx, inputs


def gen(rng):
    n = rng.choice([6, 7, 9, 20, 50, 200, 700])
    k = rng.random()
    if k < 0.3:
        return [rng.randrange(256) for _ in range(n)]
    out = []
    while len(out) < n:
        if rng.random() < 0.5:
            out.append(rng.choice([x for x in range(256) if x != 37]))
        else:
            out += [37, rng.choice(b"0123456789abcdefABCDEF"), rng.choice(b"0123456789abcdefABCDEF")]
    if k > 0.6:
        out[rng.randrange(len(out))] = rng.choice([37, 37, 71, 32, 128, rng.randrange(256)])
    if k > 0.9:
        out = out[:rng.randrange(len(out))]
    return out


def run(chk):
    b = vf.build("text_h", ["text_h.cpp"], "asan", libs=())
    p = inputs(chk, gen, 20000 if chk.thorough else 2000)
    r = vf.tlc("PercentModel", "PercentModelDeep" if chk.thorough else "PercentModel", env={"INPUTS": p}, timeout=880)
    chk.model_must_hold(r, "PercentModel")
    vf.shutil.rmtree(os.path.dirname(p))
    cases = []
    for t, sts, out, enc in r.printed("CASE"):
        a = hx(t)
        allowed = {f"{s} {hx(out)}" for s in sts}
        cases.append((f"decode {a}", next(iter(allowed)) if len(allowed) == 1 else (lambda g, al=allowed: g in al), f"decoding (status, bytes); allowed {sorted(allowed)}"))
        cases.append((f"encode {a}", hx(enc), "encoding"))
    for c, *f in r.printed("CLASS"):
        cases.append((f"class {c:02x}", "".join("01"[x] for x in f), "numeric, alpha, alphanumerical, unreserved, reserved"))
    # long texts: repetitions of the cases, decided by Parts
    some = [x for x in r.printed("CASE") if len(x[0]) > 5 and list(x[1]) == [0]]
    for t, sts, out, enc in some[::max(1, len(some) // 12)][:12]:
        for n in (256, 65536, 70001, 140003):
            k = n // len(t) + 1
            cases.append((f"decode {hx(t * k)}", f"0 {hx(out * k)}", "decoding a long text"))
            cases.append((f"decode {hx(t * k + [37])}", f"2 {hx(out * k)}", "decoding a long text that is cut short"))
            cases.append((f"encode {hx(t * k)}", hx(enc * k), "encoding a long text"))
    ans, end = replay.run_parallel(b, [c[0] for c in cases])
    replay.compare(chk, cases, ans, end)
    for c in cases[:3]:
        chk.sample({"request": c[0], "expected": str(c[1])[:100]})
    chk.assumptions.append("texts beyond the enumerated lengths are sampled")
