"""Incremental hashing: call sequences enumerated by TLC from Hasher.tla, replayed on the real hashers."""
import hashlib
import itertools
import json
import os
import random

import vf
from props import replay, sched
from props.c21 import inputs

SIZES = [0, 1, 63, 64, 65, 127, 128, 129, 1000, 4096, 16384, 100003, 
         255, 256, 257, 512, 1024, 2048, 8192, 32767, 32768, 65535, 65536, 65537, 131072, 196608, 262144, 1048576, 1048577]
ALGS = ["md4", "md5", "blake2b_512", "blake2s_256", "sha1", "sha224", "sha256", "sha384", "sha512", "sha3_224", "sha3_256", "sha3_384", "sha3_512",
        "shake128", "shake256", "ripemd160", "whirlpool"]
PART = [bytes((i * 131 + c * 17 + 7) & 0xff for i in range(n)) for c, n in enumerate(SIZES)]


def make(alg):
    special = {"blake2b_512": lambda: hashlib.blake2b(), "blake2s_256": lambda: hashlib.blake2s(), "shake128": hashlib.shake_128, "shake256": hashlib.shake_256,
               "md5_sha1": lambda: hashlib.new("md5-sha1")}
    try:
        return special[alg]() if alg in special else hashlib.new(alg)
    except ValueError:
        return None


def digest(alg, data):
    h = make(alg)
    if h is None:
        return None
    h.update(data)
    return h.digest({"shake128": 16, "shake256": 32}[alg]).hex() if alg.startswith("shake") else h.hexdigest()


BIG = (1 << 32) + 5
_big = {}


def expect_big(alg):
    if alg not in _big:
        h, z = hashlib.new(alg), bytes(1 << 20)
        for _ in range(BIG >> 20):
            h.update(z)
        h.update(z[:BIG & 0xfffff])
        _big[alg] = h.hexdigest()
    return _big[alg]


_memo = {}


def expect(alg, parts):
    key = (alg, tuple(parts))
    if key not in _memo:
        _memo[key] = digest(alg, b"".join(PART[p] for p in parts))
    return _memo[key]


def gen(rng):
    ops, live = [["c", 1], ["c", 2]], {1, 2}
    for _ in range(rng.randint(6, 25)):
        k = rng.choice([1, 2])
        if k not in live:
            ops.append(["c", k])
            live.add(k)
        r = rng.random()
        if r < 0.65:
            ops.append(["u", k, rng.randrange(len(SIZES)) if rng.random() < .3 else rng.randrange(11)])
        elif r < 0.95:
            ops.append(["f", k])
        elif r < 0.955:
            ops.append(["r", k])
        else:
            ops.append(["d", k])
            live.discard(k)
    for k in sorted(live):
        ops.append(["f", k])
    return ops


def line(kind, a1, a2, ops):
    n = itertools.count()
    w = []
    for o in ops:
        w.append(f"{o[0]}:{o[1]}:{o[2]}" if o[0] == "u" else f"f:{o[1]}:{next(n)}" if o[0] == "f" else f"{o[0]}:{o[1]}")
    return f"{kind} {a1} {a2} " + " ".join(w)


def answer(a1, a2, ops, res):
    who = [o[1] for o in ops if o[0] == "f"]
    for o in ops:
        if o[0] == "c" and make((a1, a2)[o[1] - 1]) is None:
            return "refused"
    return " ".join(expect((a1, a2)[k - 1], r) for k, r in zip(who, res))


def run(chk):
    src = ["src/hasher/backends/openssl.cpp"]
    b = vf.build("hash_h", ["hash_h.cpp"], "asan", repo_src=src)
    each = [q for s in range(len(SIZES)) for q in ([["c", 1], ["u", 1, s], ["f", 1]], [["c", 1], ["u", 1, s], ["u", 1, s], ["f", 1], ["u", 1, 3], ["u", 1, s], ["f", 1]],
                                                   [["c", 1], ["u", 1, 1], ["u", 1, s], ["u", 1, 2], ["f", 1], ["f", 1]])]
    p = inputs(chk, gen, 6000 if chk.thorough else 600, each)
    r = vf.tlc("HasherModel", "HasherModelDeep" if chk.thorough else "HasherModel", env={"INPUTS": p})
    vf.shutil.rmtree(os.path.dirname(p))
    chk.model_must_hold(r, "HasherModel")
    cases = []
    md = ["md5_sha1", "sha512_224", "sha512_256", "sm3"]
    for i, (ops, res) in enumerate(r.printed("CASE")):
        if len(ops) <= 4:
            pairs = [(a, ALGS[(j * 5 + 3) % 17]) for j, a in enumerate(ALGS)]
        else:
            pairs = [(ALGS[i % 17], ALGS[(i * 7 + i // 17) % 17])]
        for j, (a1, a2) in enumerate(pairs):
            # alternate refused algorithms away from long sequences so that they do not hide anything
            if len(ops) > 4:
                a1, a2 = (x if make(x) is not None else "sha1" for x in (a1, a2))
            # only the message digest class can be reset
            for kind in "m" if any(o[0] == "r" for o in ops) else "hptm" if len(ops) <= 4 else "hptm"[(i + j) % 4]:
                cases.append((line(kind, a1, a2, ops), answer(a1, a2, ops, res), "digests of incremental hashing"))
        if len(ops) <= 4:
            for a in md:
                cases.append((line("m", a, "sha1", ops), answer(a, "sha1", ops, res), "digests of incremental hashing (message digest class)"))
    for bad in ("none", "md2"):
        cases.append((f"h {bad} sha1 c:1 u:1:1 f:1:0", "refused", "a function without implementation is refused"))
    for a, kind in [("sha1", "h"), ("sha256", "p"), ("sha1", "m")]:
        cases.append((f"big {kind} {a} {BIG}", expect_big(a), "one update with more bytes than 32 bits can count"))
    cases.sort(key=lambda c: not c[0].startswith("big"))
    ans, end = replay.run_parallel(b, [c[0] for c in cases], env={"ASAN_OPTIONS": "detect_leaks=0"})
    replay.compare(chk, cases, ans, end)
    for c in cases[:2]:
        chk.sample({"calls": c[0], "digests": c[1]})
    threads(chk, src)
    chk.assumptions.append("hashlib computes the standard digests; functions hashlib cannot compute here must be refused")


def threads(chk, src):
    """hashers used by several threads at once, under controlled schedules with race detection"""
    b = vf.build("hash_sched_h", ["hash_sched_h.cpp", "vsched.cpp"], "sched", repo_src=src)
    progs = [("sha1 c u1 u2 f u3 f d", "sha1 c u4 f u1 f d"), ("md5 c u1 f u2 f d c u3 f d", "sha256 c u1 u1 f d"),
             ("sha1 c u1 f d", "sha256 c u2 f d", "md5 c u3 f d")]
    lines = []
    for k, pr in enumerate(progs):
        lines.append(f"d{k} dfs 2 0 {100000 if chk.thorough else 3000} {60 if chk.thorough else 5} {chk.seed} | " + " | ".join(pr))
        lines.append(f"r{k} rand 0 1 {20000 if chk.thorough else 1000} {30 if chk.thorough else 3} {chk.seed} | " + " | ".join(pr))
    names = {}
    for a in ("sha1", "md5", "sha256"):
        for n in range(4):
            for s in itertools.product("1234", repeat=n):
                names[hashlib.new(a, "".join(s).encode()).hexdigest()] = (a, [int(x) for x in s])
    byid = {x.split()[0]: [q.split()[0] for q in x.split("|")[1:]] for x in lines}

    def hist(o):
        algs = byid[o["id"]]
        ev = []
        for e in o["h"]:
            if e[0] == "f":
                a, s = names.get(e[2], ("?", [9]))
                ev.append(["f", e[1], s if a == algs[e[1] - 1] else [9]])
            else:
                ev.append(e)
        return {"ev": ev, "stuck": o["st"] == "stuck"}
    sched.run(chk, b, lines, "HasherTrace", "HasherTrace", hist=hist, kind="a digest is not that of the data given to this hasher")
