"""The stages behind the reader, each on its own: every order of handing over items enumerated by TLC from Stages.tla, on the real
chunk hashers (single and multi buffer), piece writers and piece verifiers, free-running and under controlled schedules."""
import hashlib
import os
import random
from functools import lru_cache

import vf
from props.c21 import inputs
from props.pipe_common import MULTI, free_run, scheduled

H = 8192     # the unit of the specification's sizes: half a block
ZERO = bytes(32)


class World:
    def __init__(self):
        self.dir = vf.scratch()

    def close(self):
        vf.shutil.rmtree(self.dir, ignore_errors=True)


@lru_cache(None)
def content(f, a, b):
    return bytes((x * 131 + (x >> 8) * 7 + (x >> 13) * 29 + f * 57 + 3) & 0xff for x in range(a, b))


@lru_cache(None)
def ranged(v, f, a, b, pad):
    h = hashlib.sha1() if v == 1 else hashlib.sha256()
    for x in range(a, b, H):
        h.update(content(f, x, min(b, x + H)))
    h.update(bytes(max(0, pad - (b - a))))
    return h.hexdigest()


def token(t, n):
    return bytes((t * 37 + i * 11 + (t >> 8) * 5 + 1) & 0xff for i in range(n))


@lru_cache(None)
def tree(leaves, p):
    """root and piece layer of a file with these leaf hashes and p blocks in a piece"""
    n = 1
    while n < len(leaves):
        n *= 2
    row = list(leaves) + [ZERO] * (n - len(leaves))
    layer, width = [], 1
    while True:
        if width == p and len(leaves) > p:
            layer = row[:-(-len(leaves) // p)]
        if len(row) == 1:
            return row[0].hex(), b"".join(layer).hex()
        row = [hashlib.sha256(row[i] + row[i + 1]).digest() for i in range(0, len(row), 2)]
        width *= 2


def nitems(kind, l):
    total = sum(f["size"] for f in l["files"])
    data = [f for f in l["files"] if not f["pad"] and f["size"]]
    P = 2 * l["p"]
    up = lambda a, b: -(-a // b)
    if kind == "read":
        return 0
    if kind in ("hash", "sum"):
        return up(total, P * l["c"]) if l["proto"] == "v1" else sum(1 if f["miss"] else up(f["size"], P * l["c"]) for f in data)
    if l["proto"] == "v1":
        return up(total, P)
    return sum(up(f["size"], 2) for f in data) + (sum(up(f["size"], P) for f in data) if l["proto"] == "hybrid" else 0)


def gen(rng):
    kind = rng.choice(["read", "hash", "hash", "sum", "write", "verify"])
    proto = rng.choice(["v1", "v2", "hybrid"] if kind != "verify" else ["v1", "v2"])
    p = rng.choice([1, 1, 2, 4, 8])
    sizes = [rng.choice([1, 2, 3, 4, 5, 2 * p - 1, 2 * p, 2 * p + 1, 4 * p, 4 * p + 3, rng.randrange(1, 70)]) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
    files = []
    for i, s in enumerate(sizes):
        if proto == "v1" and rng.random() < .1:
            files.append({"size": 0, "pad": 0, "miss": 0})
        files.append({"size": s, "pad": 0, "miss": int((kind == "read" and rng.random() < .3) or (kind in ("hash", "sum") and proto != "v1" and rng.random() < .1))})
        pad = -s % (2 * p)
        if i + 1 < len(sizes) and pad and (proto == "hybrid" or rng.random() < .2):
            files.append({"size": pad, "pad": 1, "miss": 0})
    if proto == "hybrid" and all(f["miss"] for f in files if not f["pad"]):
        files[0]["miss"] = 0
    l = {"proto": proto, "p": p, "c": rng.choice([1, 1, 2, 3]), "files": files}
    if kind == "read":
        return {"kind": kind, "l": l, "right": [], "ops": rng.choice([[["start", 0], ["wait", 0]]] * 4 + [[["start", 0], ["cancel", 0], ["wait", 0]], [["badwait", 0], ["start", 0], ["again", 0], ["wait", 0]], [["cancel", 0], ["badstart", 0]]])}
    n = nitems(kind, l)
    order = rng.sample(range(1, n + 1), n if rng.random() < .8 else rng.randint(0, n))
    if kind == "sum":
        order.sort()
        order = list(range(1, len(order) + 1))
    k = rng.choice([0, 0, len(order), rng.randint(0, len(order))])
    ops = [["give", i] for i in order[:k]] + [["start", 0]] + [["give", i] for i in order[k:]]
    if rng.random() < .15:
        ops.insert(rng.randint(k + 1, len(ops)), ["early", 0])
    ops += [[rng.choice(["stop", "stop", "stop", "cancel"]), 0], ["wait", 0]]
    wrong = rng.sample(range(1, n + 1), rng.choice([0, 0, 1, min(2, n), n // 2, n]))
    return {"kind": kind, "l": l, "right": [i for i in range(1, n + 1) if i not in wrong] if kind == "verify" else [], "ops": ops}


def seeds(row):
    return {i + 1: (i + 1 if row["kind"] != "verify" or i + 1 in row["right"] else 5000 + i) for i in range(len(row["items"]))}


def leaves(row, f, tok):
    its = sorted((x["leaf"], i + 1) for i, x in enumerate(row["items"]) if x["v"] == 2 and x["file"] == f)
    return tuple(token(tok[i], 32) for _, i in its)


def line(k, row, rng, sched=False, multi=None):
    l, kind = row["l"], row["kind"]
    if kind == "read":
        files = ",".join(("p" if f["pad"] else "m" if f["miss"] else "") + str(f["size"] * H) for f in l["files"])
        ops = [x for o in row["ops"] for x in [o["o"]] + [f"p{rng.choice([1, 5, 20, 60])}"] * (rng.random() < .4)]
        return f"s{k} read proto={l['proto']} piece={2 * l['p'] * H} chunk={2 * l['p'] * H * l['c']} threads={rng.choice([1, 1, 2, 5])} cap={rng.choice([2, 2, 3])} queues={rng.choice([1, 2, 3])} files={files} ops={','.join(ops)}"
    before = next(i for i, o in enumerate(row["ops"]) if o["o"] == "start")
    cap = max(1, before) + rng.choice([0, 0, 1, 3])
    threads = rng.choice([1, 2, 2] if sched else [1, 1, 2, 3, 4])
    tok = seeds(row)
    if kind in ("hash", "sum"):
        items = ",".join(f"{x['piece']}:{max(0, x['file'] - 1)}:{x['from'] * H}:{x['to'] * H}:{x['data']}" for x in row["items"])
    else:
        items = ",".join(f"1:{x['index']}:{tok[i + 1]}" if x["v"] == 1 else f"2:{x['file'] - 1}:{x['leaf']}:{tok[i + 1]}" for i, x in enumerate(row["items"]))
    ops, hold = [], 0
    for o in row["ops"]:
        ops.append(f"g{o['i']}" if o["o"] == "give" else o["o"])
        if rng.random() < .1 or o["o"] == "early":
            ops.append(f"p{rng.choice([1, 5, 20] if not sched else [1, 10, 60])}")
    stored = ""
    if kind == "verify":
        full = {i + 1: i + 1 for i in range(len(row["items"]))}
        if l["proto"] == "v1":
            stored = " v1=" + "".join(token(i, 20).hex() for i in full)
        else:
            stored = " v2=" + ",".join("%d=%s/%s" % (i, *tree(leaves(row, i + 1, full), l["p"])) for i, f in enumerate(l["files"]) if not f["pad"] and f["size"])
    files = ",".join(("p" if f["pad"] else "") + str(f["size"] * H) for f in l["files"])
    extra = f" lanes={rng.choice([0, 1, 2, 4, 8, 16])} order={rng.randrange(6)}" if multi is not None else ""
    if kind == "sum":
        row["alg"] = ["md5", "sha1", "sha256", "sha512"][(len(row["items"]) + len(row["ops"]) + l["p"]) % 4]
        extra += " alg=" + row["alg"]
    return f"s{k} {kind} proto={l['proto']} piece={2 * l['p'] * H} threads={threads} cap={cap} multi={multi or 0}{extra} files={files} items={items}{stored} ops={','.join(ops)}"


def stream(l):
    return b"".join(bytes(f["size"] * H) if f["pad"] or f["miss"] else content(i, 0, f["size"] * H) for i, f in enumerate(l["files"]))


def read_problem(row, text):
    l, r, part = row["l"], row["r"], row["cancel"]
    n, *queues = text.split(";")
    if int(n) > r["bytes"] * H or (not part and int(n) != r["bytes"] * H):
        return f"says {n} bytes read of {r['bytes'] * H}"
    if "due" not in row:
        whole = stream(l) if l["proto"] == "v1" else b""
        row["due"] = []
        for x in r["pieces"]:
            a, b = x["from"] * H, x["to"] * H
            at = f"{x['file']}:{x['index']}:"
            d = whole[a:b] if x["file"] == 0 else content(x["file"] - 1, 0, l["files"][x["file"] - 1]["size"] * H)[a:b]
            full = f"{at}{b - a}:{hashlib.sha1(d).hexdigest()}"
            row["due"].append(({at + "-", full} if x["file"] == 0 else {at + "-"}) if x["gone"] else {full})
    for q in queues:
        got = q.split()
        if len(got) > len(row["due"]) or (not part and len(got) != len(row["due"])):
            return f"{len(got)} pieces given out instead of {len(row['due'])}"
        for g, due in zip(got, row["due"]):
            if g not in due:
                return f"gives out {g} instead of {due}"
    return None


def problem(row, evs):
    if evs and evs[0][0] == "exception":
        return "raises " + evs[0][1]
    calls, res = [e for e in evs if e[0] != "result"], [e for e in evs if e[0] == "result"]
    if len(calls) != len(row["ops"]) or not res:
        return "the calls did not all return"
    asked = False
    for o, e in zip(row["ops"], calls):
        asked = asked or o["o"] in ("stop", "cancel")
        if e[0].endswith("!"):
            return f"{o['o'][3:]} is not refused"
        for name, got in zip(("started", "running", "cancelled", "done"), e[1:5]):
            if 2 not in (got, o["s"][name]) and got != o["s"][name] and not (row["kind"] == "read" and name == "done" and o["s"]["done"] == 0 and o["s"]["started"]):
                return f"after {e[0]} it says {name}={got}"
        if e[5] and not asked:
            return "a wait returned before anything was requested"
    l, r, part = row["l"], row["r"], row["cancel"]
    if row["kind"] == "read":
        return read_problem(row, res[0][1])
    words = res[0][1].split(" ")
    if row["kind"] == "hash":
        want = sorted(f"{x['v']}:" + (f"{x['index']}" if x["v"] == 1 else f"{x['file'] - 1}:{x['index']}") + ":" +
                      ranged(x["v"], max(0, x["file"] - 1), x["from"] * H, x["to"] * H, x["pad"] * H if x["v"] == 1 else 0) for x in r["ranges"])
        got = [w for w in words[2:] if w]
        if part:
            if len(set(got)) != len(got) or not set(got) <= set(want):
                return "cancelled, and gave out " + str(sorted(set(got) - set(want))[:3] or "digests twice")
            if int(words[0]) > r["done"] * H or int(words[1]) > r["hashed"] * H:
                return f"cancelled, and says {words[0]} bytes done and {words[1]} hashed of at most {r['done'] * H} and {r['hashed'] * H}"
            return None
        if got != want:
            return f"digests: missing {sorted(set(want) - set(got))[:3]}, not due {sorted(set(got) - set(want))[:3]}, {len(got)} of {len(want)}"
        if int(words[0]) != r["done"] * H or int(words[1]) != r["hashed"] * H:
            return f"says {words[0]} bytes done and {words[1]} hashed instead of {r['done'] * H} and {r['hashed'] * H}"
        return None
    if row["kind"] == "sum":
        got = words[1].split(",")[:-1]
        if len(got) != len(l["files"]) or (int(words[0]) > r["bytes"] * H if part else int(words[0]) != r["bytes"] * H):
            return f"says {words[0]} bytes hashed of {r['bytes'] * H}"
        for i, (f, g) in enumerate(zip(l["files"], got)):
            due = row["alg"] + ":" + hashlib.new(row["alg"], content(i, 0, f["size"] * H)).hexdigest() if i + 1 in r["files"] else ""
            if g != due and not (part and not g):
                return f"checksum of file {i} is {g[:140]} instead of {due[:140]}"
        return None
    tok = seeds(row)
    if row["kind"] == "write":
        v1 = words[0].split(",")[:-1]
        at = {x["index"]: token(tok[i + 1], 20).hex() for i, x in enumerate(row["items"]) if x["v"] == 1}
        for i, h in enumerate(v1):
            due = at[i] if i in r["v1"] else bytes(20).hex()
            if h != due and not (part and h == bytes(20).hex()):
                return f"v1 piece {i} is {h} instead of {due}"
        if l["proto"] != "v2" and len(v1) != max(at, default=-1) + 1:
            return f"{len(v1)} pieces"
        for i, (f, g) in enumerate(zip(l["files"], words[1].split(","))):
            due = "%s/%s" % tree(leaves(row, i + 1, tok), l["p"]) if i + 1 in r["files"] else "-"
            if g != due and not (part and g == "-"):
                return f"v2 data of file {i} is {g[:140]} instead of {due[:140]}"
        return None
    bits = "".join(map(str, r["bits"]))
    if len(words[0]) != len(bits) or any(a != b and not (part and a == "0") for a, b in zip(words[0], bits)):
        return f"verified pieces {words[0]} instead of {bits}"
    if l["proto"] == "v2" and not part:
        at, pct = 0, []
        for f in l["files"]:
            n = 0 if f["pad"] else -(-f["size"] // (2 * l["p"]))
            pct.append("%.4f" % (100 * sum(r["bits"][at:at + n]) / n if n else 100))
            at += n
        if words[1] != ",".join(pct) + ",":
            return f"percentages {words[1]} instead of {pct}"
    return None


def run(chk):
    th = chk.thorough
    p = inputs(chk, gen, 6000 if th else 600)
    r = vf.tlc("StagesModel", "StagesModelDeep" if th else "StagesModel", env={"INPUTS": p}, mem="8g")
    vf.shutil.rmtree(os.path.dirname(p))
    chk.model_must_hold(r, "StagesModel")
    rows = r.printed("CASE")
    for x in rows:
        x["right"] = set(x["right"])
    rng = random.Random(chk.seed * 71 + 3)
    w = World()
    try:
        stages(chk, rows, rng, w)
    finally:
        w.close()


def stages(chk, rows, rng, w):
    th = chk.thorough
    libs = {m: (vf.build("stage_mb" if m else "stage_h", ["stage_h.cpp"], "asan", lib="pipe", extra=MULTI if m else ()),
                vf.build("stage_mbs" if m else "stage_s", ["stage_h.cpp", "vsched.cpp"], "sched", lib="pipe", extra=("-DVSCHED",) + (MULTI if m else ())))
            for m in (False, True)}
    large = [x for x in rows if x["kind"] != "read" and len(x["items"]) > (4 if th else 3)]
    early = [x for x in rows if any(o["o"] == "early" for o in x["ops"])]
    for m in (False, True):
        own = rows if not m else [x for x in rows if x["kind"] != "read"]
        mine = own if th or not m else large + rng.sample(own, min(len(own), 4000))
        mul = lambda: (rng.choice([0, 1, 1, 1]) if m else None)
        free_run(chk, libs[m][0], w, [(line(k, x, rng, False, mul()), x) for k, x in enumerate(mine)], problem)
        if chk.violations:
            return
        few = [x for x in own if (x["kind"] == "read" or sum(o["o"] == "give" for o in x["ops"]) >= 2) and sum(f["size"] for f in x["l"]["files"]) <= 40]
        reads = [x for x in few if x["kind"] == "read"]
        few = rng.sample(few, min(len(few), 600 if th else 60)) + rng.sample(reads, min(len(reads), 100 if th else 10)) + rng.sample(early, min(len(early), 200 if th else 20))
        scheduled(chk, libs[m][1], w, [(line(k, x, rng, True, mul()), x) for k, x in enumerate(few)], problem, 400 if th else 25, 20 if th else 2)
        if chk.violations:
            return
    chk.cov["histories"] = len(rows)
    for x in rows[len(rows) // 3], rows[-1]:
        chk.sample({"kind": x["kind"], "layout": x["l"], "calls": [(o["o"], o["i"]) for o in x["ops"]]})
    chk.assumptions += ["items are handed over by one thread, none after a request; a stage is not reused; v2 stages get no empty files",
                        "Intel's ISA-L crypto library is replaced by a stand-in with the same states and rules (shim/isa-l_crypto)"]
