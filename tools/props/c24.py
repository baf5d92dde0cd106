"""Malformed torrents and links: faults enumerated by TLC with the specification's verdict, and bytes damaged at random, read under sanitizers."""
import json
import random

import vf
from props import c17, c19, meta_common as mc, replay
from props.c21 import hx


def shape(t):
    """a fault's place and kind for messages"""
    return str(mc.enc(mc.val(t)))[:160]


def judge(r, a):
    if "died" in a or "threw" in a:
        return "the process died or the error could not be caught: " + (a.get("died") or bytes.fromhex(a["threw"]).decode("latin1"))
    if "mixed" in a:
        return "one way of reading refuses it, another does not"
    if r["v"] == "refused" and "refused" not in a:
        return "read without an error"
    if r["v"] == "read":
        return c17.judge_read(r, a)


def damaged(rng, good, n):
    """n byte strings made from well-formed ones"""
    for b in good[:12]:
        for i in range(len(b)):
            yield b[:i]
    dig = [b"0", b"1", b"9", b"-", b"e", b"i", b"l", b"d", b":", b"", b"i-1e", b"0:", b"le", b"de", b"99999999999999999999", b"4294967296:", b"18446744073709551615:", b"9223372036854775807"]
    for _ in range(n):
        b = bytearray(rng.choice(good))
        for _ in range(rng.choice([1, 1, 1, 2, 3, 8])):
            i = rng.randrange(len(b) + 1)
            k = rng.random()
            if k < .3:
                b[i:i + 1] = bytes([rng.randrange(256)])
            elif k < .6:
                b[i:i + rng.randint(0, 4)] = rng.choice(dig)
            elif k < .75:
                b[i:i + rng.randint(1, 40)] = b""
            elif k < .85:
                j = rng.randrange(len(b) + 1)
                b[i:i] = b[j:j + rng.randint(1, 60)]
            else:                          # a number somewhere
                js = [j for j in range(len(b)) if 48 <= b[j] < 58]
                if js:
                    b[rng.choice(js)] = rng.randrange(48, 58)
        yield bytes(b)


def run(chk):
    rng = random.Random(chk.seed + 24)
    _, reads, binary = mc.replayed(chk, ["faults", "doubles"], picks=60000 if chk.thorough else 3000)
    count = {"refused": 0, "read": 0, "open": 0}
    good = []
    for r, a, ln in reads:
        if a is None:
            continue
        count[r["v"]] += 1
        if r["v"] == "read":
            good.append(bytes.fromhex(json.loads(ln)["b"]))
        e = judge(r, a)
        if e:
            chk.violation("torrent " + shape(r["t"]), f"reading {mc.enc(mc.val(r['t']))[:900]!r} (should be {r['v']}): {e}", {"request": ln, "answer": a, "what": e})
        else:
            chk.traces += 1
    if not good and chk.violations:
        return
    if not good:
        raise vf.Error("no well-formed torrent among the cases")
    good.sort(key=len)
    pick = good[:3] + rng.sample(good, min(60, len(good)))
    data = list(damaged(rng, pick, 200000 if chk.thorough else 12000))
    d = vf.scratch()
    ans, end = replay.run_parallel(binary, [json.dumps({"op": "read", "b": b.hex()}) for b in data], args=(d,), per_line=30)
    for b, a in zip(data, ans):
        if a == "SKIPPED":
            continue
        j = json.loads(a) if a.startswith("{") else {"died": a}
        e = judge({"v": "open"}, j)
        if e:
            chk.violation("damaged " + repr(b)[:160], f"reading {b[:900]!r}: {e}", {"bytes": b.hex(), "answer": a, "what": e})
        else:
            chk.traces += 1
    if end:
        chk.violation("process end", f"the process ended badly after answering: {end}", {"end": end})
    vf.shutil.rmtree(d)
    # links
    mb = vf.build("magnet_h", ["magnet_h.cpp"], "asan", lib="meta")
    texts = [bytes(t) for t in c19.inputs(chk)["texts"]] + [bytes(rng.randrange(256) for _ in range(rng.randint(0, 40))) for _ in range(2000)]
    texts += [b"magnet:?" + t for t in texts[-2000:]]
    ans, end = replay.run_parallel(mb, ["R " + hx(list(t)) for t in texts], per_line=20)
    replay.compare(chk, [("R " + hx(list(t)), lambda g: not g.startswith("DIED"), f"reading the link {t!r}") for t in texts], ans, end, "link ")
    chk.cov.update(faulty_torrents=count, damaged_byte_strings=len(data), links=len(texts))
    chk.sample({"torrent": shape(reads[7][0]["t"]), "verdict": reads[7][0]["v"]})
    chk.assumptions.append("single faults are exhaustive over the fields of eight well-formed torrents and the listed wrong values, double faults and damaged bytes are sampled; where the formats say too little no verdict is demanded, only that the process survives; the bencode decoder is a stand-in")
