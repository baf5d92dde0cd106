"""Merkle trees: call sequences enumerated by TLC with symbolic nodes, replayed on the real tree."""
import hashlib
import os

import vf
from props import replay
from props.c21 import inputs

SIZE = {"sha1": 20, "sha256": 32, "sha512": 64}


def gen(rng):
    n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33, 60, 64, 65, 100, 129])
    top = 1
    while top < n:
        top *= 2
    ops = [["n", n, rng.choice([0, 0, 9])]]
    for _ in range(rng.randint(2, 10)):
        for i in rng.sample(range(1, top + 1), rng.randint(1, top)):
            ops.append(["s", i, rng.randrange(0, 200)])
        if rng.random() < .3:
            ops.append([rng.choice("cmab")])
        if rng.random() < .5:
            ops += [["u"], ["q"]]
    return ops + [["u"], ["q"]]


def run(chk):
    check(chk, vf.build("merkle_h", ["merkle_h.cpp"], "asan", prelude=True, repo_src=["src/hasher/backends/openssl.cpp"]))


def check(chk, b, random_cases=(1500, 150), env=None):
    each = []
    for n in list(range(1, 70)) + [127, 128, 129, 255, 256, 257]:
        each.append([["n", n, 0], ["l"]] + [["s", i, i % 199 + 1] for i in range(1, n + 1)] + [["l"], ["u"], ["q"]])
    p = inputs(chk, gen, random_cases[0] if chk.thorough else random_cases[1], each)
    r = vf.tlc("MerkleModel", "MerkleModelDeep" if chk.thorough else "MerkleModel", env={"INPUTS": p})
    vf.shutil.rmtree(os.path.dirname(p))
    chk.model_must_hold(r, "MerkleModel")
    memo = {}

    def term(alg, t):
        """the digest a term denotes"""
        if isinstance(t, int):
            return bytes((t * 37 + i * t) & 0xff if t else 0 for i in range(SIZE[alg]))
        k = (alg, repr(t)) if len(t) == 2 else None
        if k not in memo:
            memo[k] = hashlib.new(alg, term(alg, t[0]) + term(alg, t[1])).digest()
        return memo[k]

    def show(alg, obs, full):
        s = "".join("".join(term(alg, x).hex() + "," for x in layer) + ";" for layer in obs)
        return s + (term(alg, obs[0][0]).hex() if full else "")
    cases = []
    for k, (ops, obs) in enumerate(r.printed("CASE")):
        for alg in ("sha256", "sha1", "sha512") if len(ops) <= 4 else ("sha256", "sha1", "sha256", "sha512")[k % 4:k % 4 + 1]:
            line = alg + " " + " ".join(":".join(map(str, o)) for o in ops)
            q = [o[0] == "q" for o in ops if o[0] in "ql"]
            cases.append((line, " ".join(show(alg, o, f) for o, f in zip(obs, q)), "nodes of the tree"))
    ans, end = replay.run_parallel(b, [c[0] for c in cases], env=env)
    replay.compare(chk, cases, ans, end)
    for c in cases[:2]:
        chk.sample({"calls": c[0], "observations": c[1][:200]})
    chk.assumptions.append("hashlib computes the digests the symbolic nodes denote")
