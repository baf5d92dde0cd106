"""Contents beyond the bounded layouts: more than 4 GiB, more than 65536 pieces, hundreds of files. The files are zeros but for
marked bytes, so that the specification (Large.tla) can name their digests by short terms, interpreted here with hashlib."""
import functools
import hashlib
import json
import os
import random

import vf
from props import pipe_common, replay

B = 16384
MARK = b"\xa5"


@functools.lru_cache(None)
def zero_tree(h):
    if h == 0:
        return hashlib.sha256(bytes(B)).digest()
    return hashlib.sha256(zero_tree(h - 1) * 2).digest()


@functools.lru_cache(None)
def absent_tree(h):
    return bytes(32) if h == 0 else hashlib.sha256(absent_tree(h - 1) * 2).digest()


def term(t):
    if t[0] == "z":
        return zero_tree(t[1])
    if t[0] == "p":
        return absent_tree(t[1])
    if t[0] == "b":
        d = bytearray(t[1])
        for m in t[2]:
            d[m:m + 1] = MARK
        return hashlib.sha256(d).digest()
    return hashlib.sha256(term(t[1]) + term(t[2])).digest()


def sha1_piece(x):
    d = bytearray(x["size"][0] * B + x["size"][1])
    for b, o in x["m"]:
        d[b * B + o:b * B + o + 1] = MARK
    return hashlib.sha1(d).hexdigest()


def size(f):
    return f["b"] * B + f["r"]


def pos(m):
    return m[0] * B + m[1]


def v1_of(row, P):
    out = [hashlib.sha1(bytes(P * B)).hexdigest()] * row["n1"]
    for x in row["special1"]:
        out[x["i"]] = sha1_piece(x)
    return out


def v2_of(row, P):
    out = []
    for d in row["v2"]:
        if not d:
            out.append(None)
            continue
        l = [zero_tree(P.bit_length() - 1).hex()] * d["n"]
        for x in d["special"]:
            l[x["i"]] = term(x["t"]).hex()
        out.append((term(d["root"]).hex(), l))
    return out


def checksum(f, fn):
    h = hashlib.new(fn)
    at = 0
    zero = bytes(1 << 24)
    for m in sorted(map(pos, f["m"])) + [None]:
        end = size(f) if m is None else m
        while at < end:
            n = min(len(zero), end - at)
            h.update(memoryview(zero)[:n])
            at += n
        if m is not None:
            h.update(MARK)
            at += 1
    return h.hexdigest()


def cells(fs, dmg):
    out = ""
    for i, f in enumerate(fs):
        out += f" | g{i}:{size(f)}:S" + "".join(f"+{pos(m)}" for m in f["m"])
        d = [pos(f["m"][k - 1]) for j, k in dmg if j == i + 1]
        if d:
            out += ":" + ",".join(f"flip@{x}" for x in d)
    return out


def layouts(rng, thorough, single=False):
    """[files, blocks per piece, damages]"""
    G4 = 1 << 18      # blocks in 4 GiB
    huge = {"b": G4 + 2 * 1024 + 3, "r": 5, "m": [[0, 3], [131072, 0], [G4 - 1, 16383], [G4, 0], [G4 + 2 * 1024 + 2, 9]]}
    many = {"b": 65539, "r": 100, "m": [[0, 0], [32768, 1], [65535, 5], [65536, 7], [65539, 99]]}
    small = {"b": 2, "r": 77, "m": [[0, 2], [2, 76]]}
    out = [[[huge] + [small] * (not single), 1024, [[1, rng.choice([4, 5])]]], [[many] + [small] * (not single), 1, [[1, rng.choice([4, 5])]]]]
    if not single:
        files = [{"b": 0, "r": 1 + rng.randrange(3000), "m": [[0, 0]]} for _ in range(300)]
        out.append([files, 1, [[300, 1], [270, 1]]])
        if thorough:
            files = [{"b": 0, "r": 1 + k % 50, "m": [[0, 0]]} for k in range(66000)]
            out.append([files, 1, [[65990, 1]]])
    if thorough:
        out.append([[{"b": G4, "r": 0, "m": [[G4 - 1, 16383]]}, {"b": G4 // 2, "r": 1, "m": [[0, 0], [G4 // 2, 0]]}][:1 if single else 2], 256, [[1, 1]]])
        out.append([[{"b": 2 * G4 + 1, "r": 1, "m": [[2 * G4, 16383], [2 * G4 + 1, 0]]}], 512, [[1, 2]]])
    return out


def run(chk, proto, verify=False, sums=()):
    rng = random.Random(chk.seed * 31 + 5)
    ins = layouts(rng, chk.thorough, single=proto == "hybrid")
    d = vf.scratch()
    try:
        with open(os.path.join(d, "in.json"), "w") as f:
            json.dump(ins, f)
        r = vf.tlc("LargeModel", env={"INPUTS": os.path.join(d, "in.json")}, mem="8g", args=("-lncheck", "final"))
        chk.model_must_hold(r, "LargeModel")
        cases = []
        for row in r.printed("CASE"):
            fs, P, dmg = ins[row["k"] - 1]
            v1, v2 = v1_of(row, P), v2_of(row, P)
            sig = " ".join(f"{len(fs)} files of {size(fs[0])}.. bytes, pieces of {P * B}".split())
            env = f"threads={rng.choice([2, 4, 7])} mem={rng.choice([0, 6 * P * B])} block={rng.choice([0, 3 * P * B])} "
            if verify:
                data = f"v1={''.join(v1)} " if proto == "v1" else "v2=" + ",".join(f"{i}={v[0]}/{''.join(v[1])}" for i, v in enumerate(v2) if v) + " "
                line = f"L{row['k']} verify proto={proto} piece={P * B} {env}{data}"
            else:
                line = f"L{row['k']} hash proto={proto} piece={P * B} {env}" + (f"sums={','.join(sums)} " if sums else "")
            cases.append((line + cells(fs, dmg if verify else []), (row, fs, P, v1, v2, dmg, sig)))
        binary = vf.build("pipe_h", ["pipe_h.cpp"], "asan", lib="pipe")
        for line, data in cases:
            ans, end = replay.run_lines(binary, [line], args=[d], per_line=300)
            why = "the process died: " + ans[0][:300] if ans[0].startswith("DIED") else problem(data, json.loads(ans[0]), proto, verify, sums)
            chk.cov["large_layouts"] = chk.cov.get("large_layouts", 0) + 1
            if why or end:
                chk.violation("large " + data[-1], f"{why or end} :: {data[-1]}", {"case": data[-1], "why": why or end, "input": line[:3000]})
            else:
                chk.traces += 1
    finally:
        vf.shutil.rmtree(d, ignore_errors=True)


def problem(data, events, proto, verify, sums):
    row, fs, P, v1, v2, dmg, _ = data
    total = sum(map(size, fs))
    res = [e for e in events if e[0] == "result"]
    if len(res) != 1:
        return f"no result: {events}"[:500]
    last = [e for e in events if e[0] == "poll"][-1]
    if last[1] != total or last[3] != total:
        return f"at the end {last[1]} bytes are read and {last[3]} done of {total}"
    if not verify:
        piece, got1, files = pipe_common.parse_result(res[0][1])
        if piece != P * B:
            return f"piece size {piece}"
        if got1 != (v1 if proto != "v2" else []):
            bad = [k for k, (a, b) in enumerate(zip(got1, v1)) if a != b]
            return f"{len(got1)} v1 hashes for {len(v1)} pieces, wrong: {bad[:10]}"
        if len(files) != len(fs):
            return f"{len(files)} files instead of {len(fs)}"
        for i, (name, n, got, cs, _) in enumerate(files):
            want = v2[i] if proto != "v1" else None
            if n != size(fs[i]) or name != f"g{i}":
                return f"file {i} is {name}:{n}"
            if got != want:
                return f"v2 data of file {i} ({n} bytes): " + ("missing" if got is None else "unexpected" if want is None else "wrong root" if got[0] != want[0] else f"wrong layer ({len(got[1])} hashes for {len(want[1])})")
            want = {a: checksum(fs[i], a) for a in sums}
            if cs != want:
                return f"checksums of file {i} ({n} bytes): {cs}, not {want}"
        return None
    _, m, pct = res[0][1].split(" ")
    m, pct = m[4:], [float(x) for x in pct[4:].split(",")[:-1]]
    if proto == "v1":
        bad = set(row["bad1"])
        share = [(b - a, sum(1 for x in bad if a <= x < b)) for a, b in row["range"]]
        count = row["n1"]
    else:
        bad, share, count = set(), [], 0
        for x in row["v2"]:
            n = max(1, x["n"])
            bad |= {count + j for j in x["bad"]}
            share.append((n, len(x["bad"])))
            count += n
    if len(m) != count or {i for i, c in enumerate(m) if c != "1"} != bad:
        return f"{len(m)} pieces for {count}; reported bad: {[i for i, c in enumerate(m) if c != '1'][:10]}, expected {sorted(bad)}"
    for i, (a, (n, k)) in enumerate(zip(pct, share)):
        if not abs(a - 100 * (n - k) / n) <= .001:
            return f"file {i} reported {a}% complete, expected {100 * (n - k) / n:.4f}"
    return None
