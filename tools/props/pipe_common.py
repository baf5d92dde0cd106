"""Hashing and verification: layouts and results enumerated by TLC, run through the real pipeline (free-running under
sanitizers, and under controlled schedules). hashlib interprets the digests the specification names symbolically."""
import hashlib
import json
import os
import random

import vf
from props import replay, sched

NCONTENT = 9
CONTENT_SIZE = 3_000_000


class World:
    """scratch directory with the contents of the files"""

    def __init__(self, chk):
        self.dir = vf.scratch()
        self.data = []
        for i in range(NCONTENT):
            rng = random.Random(chk.seed * 1000 + i)
            d = rng.randbytes(CONTENT_SIZE).replace(b"\0", b"\x5a")      # no zero bytes: missing bytes read as zeros
            self.data.append(d)
            with open(os.path.join(self.dir, f"c{i}"), "wb") as f:
                f.write(d)
        # repetitive contents: a recycled buffer can hold the very bytes that are missing on disk
        d = (random.Random(chk.seed * 1000 + 99).randbytes(16384).replace(b"\0", b"\x5a")) * (CONTENT_SIZE // 16384 + 2)
        self.data.append(d)
        with open(os.path.join(self.dir, f"c{NCONTENT}"), "wb") as f:
            f.write(d)
        self.cache = {}

    def close(self):
        vf.shutil.rmtree(self.dir, ignore_errors=True)

    def block(self, c, off, n):
        k = (c, off, n)
        if k not in self.cache:
            self.cache[k] = hashlib.sha256(memoryview(self.data[c])[off:off + n]).digest()
        return self.cache[k]


class Case:
    """one row of the specification with the contents chosen for its files"""

    def __init__(self, world, row, rng, periodic=0, stream=True):
        self.w, self.row, self.files, self.p = world, row, row["files"], row["p"]
        perm = rng.sample(range(NCONTENT - 1), NCONTENT - 1)
        self.content = [perm[i % len(perm)] if rng.random() < .9 else rng.randrange(NCONTENT - 1) for i in range(len(self.files))]
        self.start = [0] * len(self.files)
        if rng.random() < periodic:
            self.content = [NCONTENT] * len(self.files)
            at = 0
            for i, f in enumerate(self.files):
                self.start[i] = at % 16384 if stream else 0
                at += f["s"]
        self.names = [f"f{i}" if rng.random() < .7 else f"d{i % 2}/f{i}" for i in range(len(self.files))]

    def pad(self, i):
        return self.files[i]["k"] == "pad"

    def bytes_of(self, segs):
        out = []
        for f, off, n in segs:
            out.append(bytes(n) if self.pad(f - 1) else self.w.data[self.content[f - 1]][self.start[f - 1] + off:self.start[f - 1] + off + n])
        return b"".join(out)

    def v1(self):
        return [hashlib.sha1(self.bytes_of(s)).hexdigest() for s in self.row["v1"]]

    def term(self, t):
        if len(t) == 0:
            return bytes(32)
        if len(t) == 3 and t[0] == 0:       # not of any file
            return hashlib.sha256(b"foreign").digest()
        if len(t) == 3:
            return self.w.block(self.content[t[0] - 1], self.start[t[0] - 1] + t[1], t[2])
        return hashlib.sha256(self.term(t[0]) + self.term(t[1])).digest()

    def v2(self):
        """per file: None or (root, layer)"""
        return [None if self.pad(i) or f["s"] == 0 else (self.term(d["root"]).hex(), [self.term(x).hex() for x in d["layer"]])
                for i, (f, d) in enumerate(zip(self.files, self.row["v2"]))]

    def checksum(self, i, fn):
        fn = {"sha3_256": "sha3_256", "blake2b_512": "blake2b", "blake2s_256": "blake2s"}.get(fn, fn)
        return hashlib.new(fn, self.w.data[self.content[i]][self.start[i]:self.start[i] + self.files[i]["s"]]).hexdigest()

    def cells(self, damage={}):
        r = []
        for i, f in enumerate(self.files):
            if self.pad(i):
                r.append(f"pad:{f['s']}")
            else:
                d = damage.get(i + 1)
                r.append(f"{self.names[i]}:{f['s']}:{self.content[i]}" + (f"+{self.start[i]}" if self.start[i] else "") + (":" + (d[0] if d[0] in ("miss", "dir") else f"{d[0]}@{d[1]}") if d else ""))
        return "".join(" | " + x for x in r)


def rows(chk, mode, n, gen):
    """cases of PipeModel in one mode, with n random layouts from gen(rng)"""
    rng = random.Random(chk.seed * 77 + 3)
    p = os.path.join(vf.scratch(), "in.json")
    with open(p, "w") as f:
        json.dump([gen(rng) for _ in range(n)], f)
    cfg = f"PipeModel_{mode}" + "Deep" * chk.thorough
    r = vf.tlc("PipeModel", cfg, env={"INPUTS": p}, mem="12g")
    vf.shutil.rmtree(os.path.dirname(p))
    chk.model_must_hold(r, cfg)
    return r.printed("CASE")


def layout(rng, pads=True, big=1_500_000):
    """a random layout for the specification: [files, piece size, damages]"""
    P = rng.choice([16384, 16384, 32768, 65536, 131072, 262144])
    fs = []
    room = big
    for _ in range(rng.choice([1, 2, 3, 5, 8, 13])):
        s = rng.choice([0, 1, rng.randrange(1, 200), P - 1, P, P + 1, 2 * P, 16384, 16385, 49152, rng.randrange(1, 5 * P), rng.randrange(1, 5 * P), rng.randrange(4) * 16384 + rng.choice([0, 1, 16383])])
        if s > room:
            continue
        room -= s
        fs.append({"s": s, "k": "pad" if pads and fs and rng.random() < .2 else "file"})
    return [fs or [{"s": P + 5, "k": "file"}], P, []]


def environment(rng, P, small=False, multi=False):
    """parameters that must not influence the result"""
    if multi:
        return f"lanes={rng.choice([0, 1, 2, 4, 8, 8, 16, 16])} order={rng.randrange(6)} multi={rng.choice([1, 1, 1, 1, 0])} " + environment(rng, P, small)
    block = rng.choice([0, P, P, 2 * P, 3 * P, 4 * P, 5 * P, 1, P + 1, 16 * P]) if not small else P
    return f"block={block} threads={rng.choice([1, 1, 2, 2, 3, 4, 8] if not small else [1, 2, 3])} mem={rng.choice([0, 0, 1, 6 * P, 100 * P] if not small else [1])} " + \
        f"short={rng.choice([0, 0, 0, 4097, 16384, 5000]) if not small else 0} disk={rng.randrange(2)}"


def parse_result(text):
    """answer of a hash case -> (piece size, v1 hashes, [(name, size, v2, {sum: value}, flags)])"""
    head, *rest = text.split(" ")
    v1, *files = rest
    out = []
    for x in files:
        name, size, v2, *more = x.split(":")
        v2 = None if v2 == "none" else (v2[5:].split("/")[0], [y for y in v2.split("/")[1].split(",") if y])
        out.append((name, int(size), v2, dict(m.split("=") for m in more if "=" in m), [m for m in more if "=" not in m]))
    return int(head[6:]), [y for y in v1[3:].split(",") if y], out


def hash_problem(c, proto, events, sums=(), layers=False):
    """None, or what is wrong with the observations of one run of hashing"""
    bad = [e[1] for e in events if e[0] == "wrong"]
    if bad:
        return "wrong answer of " + ", ".join(bad)
    res = [e for e in events if e[0] == "result"]
    if len(res) != 1:
        return f"no result: {events}"[:500]
    piece, v1, files = parse_result(res[0][1])
    if piece != c.p:
        return f"piece size {piece} instead of {c.p}"
    want1 = c.v1() if proto in ("v1", "hybrid") else []
    if v1 != want1:
        bad = [k for k, (a, b) in enumerate(zip(v1, want1)) if a != b]
        return f"v1 piece hashes: {len(v1)} for {len(want1)} pieces, wrong: {bad}"
    if len(files) != len(c.files):
        return f"{len(files)} files instead of {len(c.files)}"
    want2 = c.v2() if proto in ("v2", "hybrid") else [None] * len(files)
    for i, (name, size, v2, cs, flags) in enumerate(files):
        w = "pad" if c.pad(i) else c.names[i]
        if name != w or size != c.files[i]["s"]:
            return f"file {i} is {name}:{size}, not {w}:{c.files[i]['s']}"
        if not (proto != "v1" and not c.pad(i) and size == 0) and v2 != want2[i]:
            return f"v2 data of file {i} ({name}, {size} bytes): " + ("missing" if v2 is None else "unexpected" if want2[i] is None else "wrong root" if v2[0] != want2[i][0] else f"wrong layer ({len(v2[1])} hashes for {len(want2[i][1])})")
        want = {} if c.pad(i) else {a: c.checksum(i, a) for a in sums}
        if cs != want:
            return f"checksums of file {i} ({name}, {size} bytes): " + ", ".join(f"{a} is {cs.get(a)}, not {want.get(a)}" for a in sorted(set(cs) | set(want)) if cs.get(a) != want.get(a))
        if layers and want2[i] and flags[0] != "ok":
            return f"verify_piece_layers refuses the correct layer of file {i}"
    return None


MULTI = ("-DDOTTORRENT_USE_ISAL",)


def binaries(chk, multi=False):
    """free-running under sanitizers, and under the scheduler; multi: with the multi-buffer hashers"""
    if multi:
        return (vf.build("pipe_mb", ["pipe_h.cpp"], "asan", lib="pipe", extra=MULTI),
                vf.build("pipe_mbs", ["pipe_h.cpp", "vsched.cpp"], "sched", lib="pipe", extra=("-DVSCHED",) + MULTI))
    return (vf.build("pipe_h", ["pipe_h.cpp"], "asan", lib="pipe"),
            vf.build("pipe_s", ["pipe_h.cpp", "vsched.cpp"], "sched", lib="pipe", extra=("-DVSCHED",)))


def free_run(chk, binary, world, cases, problem):
    """cases: (line, case data); problem(case data, events) -> None or text"""
    random.Random(chk.seed).shuffle(cases)
    ans, end = replay.run_parallel(binary, [c[0] for c in cases], args=[world.dir], per_line=60)
    n = hung = 0
    for (line, data), got in zip(cases, ans):
        if got == "SKIPPED":
            continue
        why = "the process died: " + got[:300] if got.startswith("DIED") else problem(data, json.loads(got))
        if why is None:
            n += 1
            continue
        if got.startswith("DIED rc=timeout"):
            hung += 1
            if hung == 1 and retry(binary, world, line):
                chk.unconfirmed("a case was slow but ended: " + line[:300])
                continue
        key = line.split(" ", 1)[1]
        chk.violation(key[:200], f"{why} :: {line[:600]}", {"input": line, "got": got[:4000], "why": why})
    if end:
        chk.violation("process end", f"the process ended badly after answering: {end}", {"end": end})
    chk.traces += n
    chk.cov["cases_replayed"] = chk.cov.get("cases_replayed", 0) + len(cases)


def retry(binary, world, line):
    """does a case that seemed to hang end on its own?"""
    a, _ = replay.run_lines(binary, [line], args=[world.dir], per_line=60)
    return not a[0].startswith("DIED rc=timeout")


def scheduled(chk, binary, world, cases, problem, execs, secs, modes=("rand", "pct")):
    """cases: (line without schedule parameters, data)"""
    lines, data = [], {}
    for k, (line, d) in enumerate(cases):
        for m in modes:
            i = f"{m}{k}"
            _, rest = line.split(" ", 1)
            mode, rest = rest.split(" ", 1)
            lines.append(f"{i} {mode} mode={m} execs={execs} sec={secs} seed={chk.seed + k} steps=60000 bound=1 {rest}")
            data[i] = d
    outs, _ = explore(chk, binary, world, lines)
    byid = {x.split()[0]: x for x in lines}
    n = 0
    for o in outs:
        why = None
        if o["race"]:
            why = "data race: " + o["msg"]
        elif o["st"] in sched.BAD or o["st"] in ("stuck", "limit"):
            why = {"stuck": "deadlock", "limit": "does not end"}.get(o["st"], o["st"]) + ": " + o["msg"]
        else:
            why = problem(data[o["id"]], o["h"])
        if why is None:
            n += 1
            continue
        if len(chk.violations) >= 12:
            break
        ln = byid[o["id"]]
        if not confirmed(binary, world, ln, o, lambda h: problem(data[o["id"]], h)):
            chk.unconfirmed("a suspected violation did not reproduce: " + ln + " " + why)
            continue
        chk.violation(ln.split(" ", 8)[8][:160] + why[:40], f"under a controlled schedule: {why} :: {ln[:600]}", {"program": ln, "schedule": o["sched"], "history": o["h"], "status": o["st"], "why": why})
    chk.traces += n


def explore(chk, binary, world, lines):
    order = list(lines)
    random.Random(chk.seed).shuffle(order)
    chunks = [order[i::vf.NCPU] for i in range(vf.NCPU)]

    def one(arg):
        i, c = arg
        if not c:
            return []
        r = vf.run([binary, world.dir], "\n".join(c) + "\n", timeout=880, env={"VS_CPU": str(i)})
        return [json.loads(x) for x in r.stdout.splitlines()]
    outs, sums = [], []
    for part in vf.pmap(one, list(enumerate(chunks))):
        for o in part:
            (sums if "summary" in o else outs).append(o)
    chk.cov["schedules_executed"] = chk.cov.get("schedules_executed", 0) + sum(s["execs"] for s in sums)
    chk.cov["scheduling_steps"] = chk.cov.get("scheduling_steps", 0) + sum(s["steps"] for s in sums)
    chk.cov["programs"] = chk.cov.get("programs", 0) + len(sums)
    return outs, sums


def confirmed(binary, world, line, o, problem):
    r = vf.run([binary, world.dir, o["sched"]], line + "\n", timeout=300)
    for g in map(json.loads, r.stdout.splitlines()):
        if g["race"] or g["st"] != "done" or problem(g["h"]) is not None:
            return True
    r = vf.run([binary, world.dir], line + "\n", timeout=300)
    for g in map(json.loads, r.stdout.splitlines()):
        if "summary" not in g and (g["race"] or g["st"] != "done" or problem(g["h"]) is not None):
            return True
    return False


def hash_check(chk, proto, mode, nrandom, gen, sums=lambda rng: (), layers=False, small=None, share=1.0, multi=False):
    """the common part of C05-C08: all layouts of the model free-running, small ones under controlled schedules"""
    w = World(chk)
    try:
        asan, sch = binaries(chk, multi)
        rng = random.Random(chk.seed * 131 + 7)
        rs = rows(chk, mode, nrandom, gen)
        free, few = [], []
        small = small or (lambda r: 4 <= sum(-(-f["s"] // r["p"]) for f in r["files"]) <= 9 and r["p"] <= 32768)
        for k, r in enumerate(rs):
            if not r["files"]:
                continue
            if rng.random() > share:
                continue
            c = Case(w, r, rng)
            s = list(sums(rng))
            # without a piece size the hasher chooses one: 32 KiB for all storages of less than 32 MiB
            auto = r["p"] == 32768 and 0 < sum(f["s"] for f in r["files"]) < 1 << 25 and rng.random() < .3
            tail = f"proto={proto} " + ("" if auto else f"piece={r['p']} ") + (f"sums={','.join(s)} " if s else "") + ("layers=1 " if layers else "")
            cells = c.cells()
            if proto == "hybrid":       # the hasher adds the padding itself
                keep = rng.random() < .2
                cells = "".join((f" | pad:{rng.choice([1, 77, r['p'] - 1, r['p']])}" if rng.random() < .08 else "") + " | " + x for x in cells.split(" | ")[1:] if keep or not x.startswith("pad:"))
            free.append((f"h{k} hash {tail}{environment(rng, r['p'], False, multi)}{cells}", (c, s)))
            if small(r):
                few.append((f"h{k} hash {tail}{environment(rng, r['p'], True, multi)}{cells}", (c, s)))
        prob = lambda d, ev: hash_problem(d[0], proto, ev, d[1], layers)
        free_run(chk, asan, w, free, prob)
        few = rng.sample(few, min(len(few), 400 if chk.thorough else 40))
        scheduled(chk, sch, w, few, prob, 400 if chk.thorough else 30, 20 if chk.thorough else 2)
        chk.cov["layouts"] = chk.cov.get("layouts", 0) + len(free)
        chk.sample({"case": free[len(free) // 2][0][:300]})
        chk.sample({"scheduled": few[0][0][:300] if few else None})
    finally:
        w.close()
    chk.assumptions += ["bytes are random and non-zero; digests are interpreted with hashlib", "schedules are sampled (random and priority based)"]


def damages(rng, lay, hashes=None):
    """a random layout with a few damaged files"""
    fs, P, _ = lay
    reg = [i for i, f in enumerate(fs) if f["k"] == "file"]
    out = []
    for i in rng.sample(reg, min(len(reg), rng.choice([0, 1, 1, 2, 3]))):
        n = fs[i]["s"]
        k = rng.random()
        if k < .5 and n:
            d = ["flip", rng.choice([0, n - 1, rng.randrange(n), min(n - 1, P), max(0, min(n - 1, (n // P) * P - 1))])]
        elif k < .75 and n:
            d = ["trunc", rng.choice([0, n - 1, rng.randrange(n), (n - 1) // P * P, (n - 1) // 16384 * 16384])]
        else:
            d = [rng.choice(["miss", "dir"]), 0] if rng.random() < .6 else ["ext", rng.choice([1, 20000, P])]
        out.append([i + 1, d])
    if hashes and rng.random() < .3:
        if hashes == "v1":
            out.append([0, ["hash", rng.randint(1, -(-sum(f["s"] for f in fs) // P))]]) if any(f["s"] for f in fs) else None
        else:
            i = rng.choice([-1] + [i for i in reg if fs[i]["s"] and not any(x[0] == i + 1 for x in out)])
            out += [[i + 1, ["hash", k]] for k in rng.sample(range(1, 1 + -(-fs[i]["s"] // P)), 1)] if i >= 0 else []
    return [fs, P, out]


def verify_problem(c, proto, events):
    bad = [e[1] for e in events if e[0] == "wrong"]
    if bad:
        return "wrong answer of " + ", ".join(bad)
    res = [e for e in events if e[0] == "result"]
    if len(res) != 1:
        return f"no result: {events}"[:500]
    head, m, pct = res[0][1].split(" ")
    m, pct = m[4:], pct[4:].split(",")[:-1]
    if head not in [f"proto={x}" for x in c.proto]:
        return f"the verifier says {head}, expected {c.proto}"
    if proto == "v1":
        want = "".join("1" if x else "0" for x in c.row["map1"])
        share = c.row["share1"]
        known = [True] * len(want)
    else:
        want, known, share = "", [], []
        for i, g in enumerate(c.row["map2"]):
            if not g and not c.pad(i):      # an empty file has one entry
                want += "1"
                known.append(False)
                share.append([0, 0])        # with nothing to verify, none of it is missing
            else:
                want += "".join("1" if x else "0" for x in g)
                known += [True] * len(g)
                share.append([sum(g), len(g)])
    if len(m) != len(want) or any(k and a != b for k, a, b in zip(known, m, want)):
        return f"pieces reported {m}, expected {want}"
    if "!" in "".join(pct):
        return "the share of a file given as entry differs from the one given by index"
    if len(pct) != len(c.files):
        return f"{len(pct)} shares"
    for i, (a, s) in enumerate(zip(pct, share)):
        w = 100 * s[0] / s[1] if s[1] else 100
        if not abs(float(a) - w) <= .001:     # also not a number
            return f"file {i} reported {a}% complete, expected {w:.4f}"
    return None


def tree_root(layer, p):
    """the root of the tree that has a piece layer"""
    up = lambda s: [hashlib.sha256(a + b).digest() for a, b in zip(s[::2], s[1::2])]
    zero = bytes(32)
    for _ in range((p // 16384).bit_length() - 1):
        zero = hashlib.sha256(zero + zero).digest()
    s = [bytes.fromhex(h) for h in layer]
    s += [zero] * ((1 << (len(s) - 1).bit_length()) - len(s))
    while len(s) > 1:
        s = up(s)
    return s[0].hex()


def verify_check(chk, proto, mode, nrandom, gen, share=1.0, multi=False):
    w = World(chk)
    try:
        asan, sch = binaries(chk, multi)
        rng = random.Random(chk.seed * 137 + 7)
        free, few = [], []
        for k, r in enumerate(rows(chk, mode, nrandom, gen)):
            if not r["files"] or (k >= nrandom and rng.random() > share):
                continue
            c = Case(w, r, rng, .2, proto == "v1")
            dmg = {i: d for i, d in r["dmg"] if d[0] != "hash"}
            wrong = {(i, d[1] - 1) for i, d in r["dmg"] if d[0] == "hash"}      # hashes that are not those of the bytes

            def bent(h):
                k = rng.choice([0, 0, len(h) - 1, len(h) - 1, rng.randrange(len(h))])
                return h[:k] + "%x" % (int(h[k], 16) ^ rng.choice([1, 2, 4, 8])) + h[k + 1:]
            solid = any(f["k"] == "file" and f["s"] for f in r["files"])
            if proto == "v1":
                data = f"v1={''.join(bent(h) if (0, k) in wrong else h for k, h in enumerate(c.v1()))} "
                pv = rng.choice(["v1", "none"]) if solid else "v1"
                if rng.random() < .2 and solid:      # the v2 data of a hybrid torrent does not matter when v1 is asked for
                    data += "v2=" + ",".join(f"{i}=" + "11" * 32 + "/" for i, f in enumerate(r["files"]) if not c.pad(i) and f["s"]) + " "
                    pv = "v1"
            else:
                # v2 data of empty files is not specified: some have none, some anything
                v2 = c.v2()
                for i, k in sorted(wrong):      # as if the original had other bytes in that piece
                    root, layer = v2[i - 1]
                    layer = [bent(h) if j == k else h for j, h in enumerate(layer)]
                    v2[i - 1] = (tree_root(layer, r["p"]) if layer else bent(root), layer)
                data = "v2=" + ",".join(f"{i}=" + (v[0] + "/" + "".join(v[1]) if v else "00" * 32 + "/") for i, v in enumerate(v2)
                                        if not c.pad(i) and (v or rng.random() < .5)) + " "
                if data == "v2= ":
                    data = ""
                pv = rng.choice(["v2", "none"]) if solid and all(f["k"] == "pad" or f["s"] for f in r["files"]) else "v2"
                if rng.random() < .2 and solid:      # hybrid torrents are verified by their v2 data
                    n = -(-sum(f["s"] for f in r["files"]) // r["p"])
                    data += "v1=" + "ab" * 20 * n + " "
                    pv = rng.choice(["v2", "hybrid", pv])
                    c.proto = {"v2": [2], "hybrid": [3], "none": [2, 3]}[pv]
                else:
                    c.proto = [2]
            if proto == "v1":
                c.proto = [1]
            tail = f"proto={pv} piece={r['p']} entry=1 {data}"
            cells = c.cells(dmg)
            free.append((f"v{k} verify {tail}{environment(rng, r['p'], False, multi)}{cells}", c))
            if 3 <= sum(-(-f["s"] // r["p"]) for f in r["files"]) <= 9 and r["p"] <= 32768:
                few.append((f"v{k} verify {tail}{environment(rng, r['p'], True, multi)}{cells}", c))
        prob = lambda c, ev: verify_problem(c, proto, ev)
        free_run(chk, asan, w, free, prob)
        few = rng.sample(few, min(len(few), 400 if chk.thorough else 40))
        scheduled(chk, sch, w, few, prob, 400 if chk.thorough else 30, 20 if chk.thorough else 2)
        chk.cov["layouts_with_damages"] = len(free)
        chk.sample({"case": free[len(free) // 2][0][:300]})
        chk.sample({"scheduled": few[0][0][:300]})
    finally:
        w.close()
    chk.assumptions += ["bytes are random and non-zero (missing bytes are read as zeros); digests are interpreted with hashlib", "schedules are sampled (random and priority based)"]
