"""v2 hashing: layouts enumerated by TLC with symbolic Merkle trees, hashed by the real pipeline; layers altered by TLC,
judged by the real verify_piece_layers."""
import random

import vf
from props import large_common
from props.pipe_common import Case, World, binaries, free_run, hash_check, layout


def altered_layers(chk):
    r = vf.tlc("LayersModel", "LayersModel" + "Deep" * chk.thorough, mem="8g")
    chk.model_must_hold(r, "LayersModel")
    rng = random.Random(chk.seed + 5)
    w = World(chk)
    try:
        cases = []
        for k, row in enumerate(r.printed("LAYER")):
            c = Case(w, row, rng)
            c.content = rng.sample(range(8), len(c.files))     # different terms are different hashes
            data = ",".join(f"{i}={c.term(d['root']).hex()}/" + "".join(c.term(x).hex() for x in d["layer"]) for i, d in enumerate(row["dat"]) if d["has"])
            want = "".join("01"[x] for x in row["ok"])
            cases.append((f"l{k} layers piece={row['p']} " + (f"v2={data} " if data else "") + "".join(" | " + x for x in (f"pad:{f['s']}" if f["k"] == "pad" else f"n{i}:{f['s']}:0" for i, f in enumerate(row["files"]))), (row["alt"], want)))
        chk.cov["altered_layers"] = len(cases)

        def problem(d, ev):
            if ev and ev[0][0] == "result" and ev[0][1] == d[1]:
                return None
            return f"verify_piece_layers answered {ev} instead of {d[1]} for data altered so: {d[0]}"
        free_run(chk, binaries(chk)[0], w, cases, problem)
    finally:
        w.close()


def run(chk):
    hash_check(chk, "v2", "v2", 600 if chk.thorough else 100, layout, layers=True)
    altered_layers(chk)
    large_common.run(chk, "v2")
