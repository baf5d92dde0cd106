"""Alignment padding and piece size: layouts enumerated by TLC with their aligned form, replayed on the real storage."""
import os

import vf
from props import replay
from props.c21 import inputs
from props.storage_common import path, size, SZ


def gen(rng):
    e = rng.choice([14, 15, 16, 17, 18, 20, 22, 24])
    p = 1 << (e - 14)
    sz = SZ + [[p, 0], [p - 1, 16383], [p, 1], [2 * p, 0], [3 * p - 1, 16383], [1 << rng.randint(0, 20), rng.choice([0, 1])], [(1 << rng.randint(0, 20)) - 1, 16383]]
    return [[rng.choice(sz) for _ in range(rng.randint(0, 12))], e, rng.choice([14, 15, 16, 17, 18, 20, 22, 24])]


def run(chk):
    b = vf.build("storage_h", ["storage_h.cpp"], "asan", prelude=True, repo_src=["src/file_storage.cpp", "src/file_entry.cpp", "src/hasher/backends/openssl.cpp"])
    powers = []
    for e in range(0, 45):
        for d in (-1, 0, 1):
            n = (1 << e) + d
            powers.append([[[n // 16384, n % 16384]], 14, 15])
            h = n // 2
            powers.append([[[h // 16384, h % 16384], [(n - h) // 16384, (n - h) % 16384]], 15, 14])
    p = inputs(chk, gen, 5000 if chk.thorough else 600, powers)
    r = vf.tlc("AlignModel", "AlignModelDeep" if chk.thorough else "AlignModel", env={"INPUTS": p}, mem="8g")
    vf.shutil.rmtree(os.path.dirname(p))
    chk.model_must_hold(r, "AlignModel")

    def listing(fs):
        return "".join((f"pad:{path(f['p'])}:{size(f['s'])}" if f["k"] == "pad" else f"file:{path(f['p'])}:{size(f['s'])}:{f['id']}") + "," for f in fs)

    cases = []

    def add(line, want, what):
        """want: field -> value, one dict per q"""
        def ok(got, want=want):
            qs = got.split("|")[:-1]
            if len(qs) != len(want):
                return False
            for q, w in zip(qs, want):
                if "!" in q:
                    return False
                f = dict(x.split("=", 1) for x in q.split(" "))
                if any(f[k] != v for k, v in w.items()):
                    return False
            return True
        cases.append((line, ok, what + f"; expected {want}"))
    for c in r.printed("CASE"):
        adds = " ".join(f"add:f/{i + 1}:{size(s)}:{i + 1}" for i, s in enumerate(c["sizes"]))
        al, again = listing(c["aligned"]), listing(c["again"])
        P, P2 = 1 << c["e"], 1 << c["e2"]
        w1 = {"files": al, "aligned": "1", "psize": str(P), "pieces": str(c["pieces"]), "n": str(len(c["aligned"])),
              "total": str(sum(size(f["s"]) for f in c["aligned"])), "totalreg": str(sum(size(s) for s in c["sizes"]))}
        add(f"{adds} piece:{c['e']} q: align q: align q: piece:{c['e2']} align q: piece:{c['e']} align q:",
            [{"aligned": "1" if c["aligned0"] else "0"}, w1, w1, {"files": again, "aligned": "1", "psize": str(P2)}, w1],
            "alignment, alignment again, alignment for another piece size and back")
        add(f"{adds} choose q: piece:{c['e']} align choose q:", [{"psize": str(1 << c["chosen"])}, {"psize": str(1 << c["chosen2"]), "files": al}], "automatic piece size")
    ans, end = replay.run_parallel(b, [c[0] for c in cases])
    replay.compare(chk, cases, ans, end)
    for c in cases[300:302]:
        chk.sample({"edits": c[0], "what": c[2][:500]})
    chk.assumptions.append("layouts beyond the enumerated sizes are sampled")
