"""Multi-buffer hashing: call sequences enumerated by TLC from MultiBuffer.tla on the real multi-buffer hashers, and the
layouts, trees and life cycles of C05-C12 with the library built for them. The machine below (Intel ISA-L's crypto library) is a stand-in
whose lanes and order of completion are chosen by the check."""
import hashlib
import os

import vf
from props import c11, c12, replay
from props.c21 import inputs
from props.pipe_common import MULTI, damages, hash_check, layout, verify_check

ALGS = ["sha1", "sha256", "sha512", "md5"]
SIZES = [0, 1, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 1000, 16384, 16385, 65536]


def part(n):
    return bytes((i * 131 + n * 17 + 7) & 0xff for i in range(n))


PART = {}


def digest(alg, parts):
    h = hashlib.new(alg)
    for p in parts:
        if p not in PART:
            PART[p] = part(p)
        h.update(PART[p])
    return h.hexdigest()


def gen(rng):
    ops, jobs = [], []
    size = lambda: rng.choice(SIZES) if rng.random() < .6 else rng.randrange(1, 3000)
    for _ in range(rng.randint(3, 40)):
        r = rng.random()
        ready = [j for j, s in enumerate(jobs) if s in "nt"]
        opened = [j for j, s in enumerate(jobs) if s == "o"]
        closed = [j for j, s in enumerate(jobs) if s in "ct"]
        if r < .12:
            n = rng.choice([0, 1, 2, 3, 5, 8, 9, 16, 17, 40])
            ops.append(["z", n])
            jobs = jobs[:n] + ["n"] * (n - len(jobs))
        elif r < .14:
            ops.append(["r"])
            jobs = []
        elif r < .22:
            k = rng.choice("EF")
            ops.append([k, size()])
            jobs.append("c" if k == "E" else "o")
        elif r < .6 and ready:
            for j in ready if rng.random() < .5 else rng.sample(ready, 1):
                k = rng.choice("eef")
                ops.append([k, j + 1, size()])
                jobs[j] = "c" if k == "e" else "o"
        elif r < .8 and opened:
            for j in opened if rng.random() < .5 else rng.sample(opened, 1):
                k = rng.choice("ul")
                ops.append([k, j + 1, size()])
                jobs[j] = "c" if k == "l" else "o"
        elif closed:
            for j in closed if rng.random() < .4 else rng.sample(closed, 1):
                ops.append(["t", j + 1])
                jobs[j] = "t"
    for j, s in enumerate(jobs):
        if s == "o":
            ops.append(["l", j + 1, size()])
        if s in "oc":
            ops.append(["t", j + 1])
    return ops


def calls(chk):
    for c in ["0", "1", "2"] + ["deep"] * chk.thorough:
        chk.model_must_hold(vf.tlc("MultiBufferImpl", "MultiBufferImpl_" + c, mem="8g"), "MultiBufferImpl_" + c)
    p = inputs(chk, gen, 20000 if chk.thorough else 2000)
    r = vf.tlc("MultiBufferModel", "MultiBufferModelDeep" if chk.thorough else "MultiBufferModel", env={"INPUTS": p})
    vf.shutil.rmtree(os.path.dirname(p))
    chk.model_must_hold(r, "MultiBufferModel")
    b = vf.build("mb_h", ["mb_h.cpp"], "asan", prelude=True, extra=MULTI, repo_src=["src/hasher/backends/openssl.cpp", "src/hasher/backends/isal.cpp"])
    cases = []
    for k, (ops, outs) in enumerate(r.printed("CASE")):
        enumerated = len(ops) <= 6 and all(o[-1] in (0, 2) for o in ops if o[0] in "eEfFul")
        lens = {0: 0, 2: [5, 64, 200][k % 3]} if enumerated else {}
        f = lambda n: lens.get(n, n) if enumerated else n
        line = " ".join(":".join(map(str, o[:-1] + [f(o[-1])] if o[0] in "eEfFul" else o)) for o in ops)
        for alg in ALGS if len(ops) <= 3 else [ALGS[k % 4]]:
            want = " ".join("n%d" % o["n"] if "n" in o else "#%d" % o["id"] if "id" in o else digest(alg, [f(x) for x in o["digest"]]) for o in outs if "ok" not in o)
            for lanes in ([0, 1, 2, 8] if len(ops) <= 3 else [[0, 1, 2, 4, 8, 16][(k // 4) % 6]]):
                cases.append((f"{alg} {lanes} {(k // 24) % 6} {line}", want, "what a multi-buffer hasher returns"))
    for alg in ("sha224", "sha384", "blake2b_512", "none"):
        cases.append((f"{alg} 8 0 E:5 t:1", "refused", "a function without multi-buffer implementation is refused"))
    ans, end = replay.run_parallel(b, [c[0] for c in cases])
    replay.compare(chk, cases, ans, end)
    for c in cases[:2]:
        chk.sample({"calls": c[0], "returns": c[1]})


def run(chk):
    th = chk.thorough
    calls(chk)
    if not chk.violations:
        b = vf.build("merkle_mb", ["merkle_h.cpp"], "asan", prelude=True, extra=MULTI, repo_src=["src/hasher/backends/openssl.cpp", "src/hasher/backends/isal.cpp"])
        c12.check(chk, b, (300, 60))
    share = .5 if th else .15
    for proto in ("v1", "v2", "hybrid"):
        if not chk.violations:
            hash_check(chk, proto, proto, 300 if th else 40, layout, layers=proto == "v2", share=share, multi=True,
                       sums=lambda rng: rng.sample(["md5", "sha256"], rng.choice([0, 0, 1, 2])))
    for proto in ("v1", "v2"):
        if not chk.violations:
            verify_check(chk, proto, proto.replace("v", "ver"), 300 if th else 60, lambda rng: damages(rng, layout(rng)), share=share, multi=True)
    if not chk.violations:
        c11.lives(chk, 300 if th else 60, 1000 if th else 200, multi=True)
    chk.assumptions.append("Intel's ISA-L crypto library is replaced by a stand-in with the same states and rules (shim/isa-l_crypto)")
