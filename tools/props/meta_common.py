"""Metafiles: the trees of Metafile.tla turned into bytes and compared with what the real code writes and reads."""
import hashlib
import json
import os
import random

import vf
from props import replay

NAMES = [b".pad", b"0", b"A", b"B dir", b"a", b"a b", b"a.txt", b"aa", b"b", b"b\n:i1e", b"z", b"\xc3\xa9.bin", b"\xff\xfe"]
NAMES += [b"\xff\xff%02d" % i for i in range(40 - len(NAMES))]
URLS = [b"http://a", b"http://a/announce", b"http://b:80/x?y=1&z=2", b"https://\xc3\xa9/", b"udp://t:1", b"wss://" + b"long" * 60, b"z"]
URLS += [b"zz%02d" % i for i in range(40 - len(URLS))]
TEXTS = {"s1": b"hello", "s2": b"\xc3\xa9 i0e d3:e", "s3": bytes(range(256)), "s4": b"x" * 301, "s5": b"a\0b\n\"\\\x7f",
         "s6": b"0123456789" * 12345}
assert NAMES == sorted(NAMES) and URLS == sorted(URLS) and not any(len(t) in (20, 32) for t in list(TEXTS.values()))


def digest(n, i):
    return hashlib.shake_256(f"{n}:{i}".encode()).digest(n)


def text(s):
    if s.startswith("@c"):
        return NAMES[int(s[2:]) - 1]
    if s.startswith("@u"):
        return URLS[int(s[2:]) - 1]
    if s.startswith("@r"):
        return digest(32, int(s[2:]))
    return TEXTS.get(s, s.encode())


class Any:
    """a string the specification leaves open"""
    def __eq__(self, o):
        return isinstance(o, bytes)


class Bag(list):
    """a list in any order"""
    def __eq__(self, o):
        return isinstance(o, list) and sorted(map(enc, self)) == sorted(map(enc, o))


def val(t):
    """tree of the specification -> Python value"""
    k = t[0]
    if k == "s":
        return text(t[1])
    if k == "b":
        b = b"".join(digest(t[1], i) for i in t[2])
        return b + b"\1" * t[3] if t[3] >= 0 else b[:t[3]]
    if k in "iI":
        return int(t[1])
    if k == "l":
        return [val(x) for x in t[1]]
    if k == "S":
        return Bag(val(x) for x in t[1])
    if k == "d":
        return {text(a): val(b) for a, b in (t[1] or {}).items()}
    return Any()


def enc(v):
    if isinstance(v, bytes):
        return b"%d:%s" % (len(v), v)
    if isinstance(v, int):
        return b"i%de" % v
    if isinstance(v, list):
        return b"l" + b"".join(map(enc, v)) + b"e"
    if isinstance(v, dict):
        return b"d" + b"".join(enc(k) + enc(v[k]) for k in sorted(v)) + b"e"
    raise vf.Error(f"cannot encode {v!r}")


class Bad(Exception):
    pass


def dec(b, spans=None):
    """strict decoder: canonical numbers, sorted keys, nothing left over. spans: key path -> (begin, end)"""
    def number(p, end):
        e = b.index(end, p)
        s = b[p:e]
        if not s or s != str(int(s)).encode():
            raise Bad("number " + repr(s))
        return int(s), e + 1

    def string(p):
        n, p = number(p, b":")
        if n < 0 or p + n > len(b):
            raise Bad("string")
        return b[p:p + n], p + n

    def value(p, path):
        q = p
        c = b[p:p + 1]
        if c == b"i":
            v, p = number(p + 1, b"e")
        elif c == b"l":
            v, p = [], p + 1
            while b[p:p + 1] != b"e":
                x, p = value(p, path + (len(v),))
                v.append(x)
            p += 1
        elif c == b"d":
            v, p, last = {}, p + 1, None
            while b[p:p + 1] != b"e":
                k, p = string(p)
                if last is not None and not last < k:
                    raise Bad("keys out of order")
                last = k
                v[k], p = value(p, path + (k,))
            p += 1
        else:
            v, p = string(p)
        if spans is not None:
            spans[path] = (q, p)
        return v, p
    try:
        v, p = value(0, ())
    except (ValueError, IndexError) as e:
        raise Bad(str(e))
    if p != len(b):
        raise Bad("trailing data")
    return v


def meta(m):
    """metafile of the specification -> the form the harness takes and shows"""
    hx = lambda s: text(s).hex()  # noqa: E731
    path = lambda p: [NAMES[i - 1].hex() for i in p]  # noqa: E731
    o = {k: hx(m[k]) for k in ("comment", "creator", "name", "source", "dir")}
    o["tiers"] = [[URLS[u - 1].hex() for u in sorted(t)] for t in m["tiers"]]
    o["date"] = int(m["date"][1])
    o["coll"] = sorted(hx(x) for x in m["coll"])
    o["http"], o["web"] = [hx(x) for x in m["http"]], [hx(x) for x in m["web"]]
    o["nodes"] = [[hx(h), p] for h, p in m["nodes"]]
    o["similar"] = [[v] + ([digest(20, i).hex()] if v != "v2" else []) + ([digest(32, i).hex()] if v != "v1" else []) for v, i in m["similar"]]
    o["priv"], o["cross"], o["mode"], o["psize"] = m["priv"], m["cross"], m["mode"], m["psize"]
    o["other"] = {text(k).hex(): val(v) for k, v in (m["other"] or {}).items()}
    o["pieces"] = [digest(20, i).hex() for i in m["pieces"]]
    o["files"] = []
    for f in m["files"]:
        o["files"].append({"path": path(f["path"]), "size": f["size"], "attr": "".join(c for c in "xlhp" if c in f["attr"][0]) if f["attr"] else None,
                           "link": path(f["link"][0]) if f["link"] else None, "sums": {a: digest({"md5": 16, "sha1": 20, "sha256": 32, "sha512": 64}[a], i).hex() for a, i in f["sums"]},
                           "root": digest(32, f["root"]).hex() if f["root"] else None, "layer": [digest(32, i).hex() for i in f["layer"]]})
    return o


def shown(m):
    """what the harness shows of it"""
    o = meta(m)
    o["similar"] = sorted(x[0] + x[1] for x in o["similar"])
    o["dir"] = False
    o["total"] = sum(f["size"] for f in o["files"])
    o["regular"] = sum(f["size"] for f in o["files"] if "p" not in (f["attr"] or ""))
    return o


def differs(exp, got):
    """None, or what is different"""
    for k, e in exp.items():
        g = got.get(k)
        if k == "mode" and e == "any":
            continue
        if k == "other":
            g = {a: dec(bytes.fromhex(b)) for a, b in g.items()}
        if e != g:
            if k == "files" and len(e) == len(g):
                for i, (x, y) in enumerate(zip(e, g)):
                    if x != y:
                        return f"file {i}: expected {x}, got {y}"
            return f"{k}: expected {e}, got {g}"
    if set(got) - set(exp):
        return f"unexpected {set(got) - set(exp)}"


def from_json(x):
    return x


def random_meta(rng):
    texts = ["s1", "s2", "s3", "s4", "s5", ""]
    some = lambda n: rng.sample(texts, rng.randint(0, n))  # noqa: E731
    ps = rng.choice([16384, 16384, 32768, 65536, 1 << 20])
    urls = rng.sample(range(1, 30), rng.randint(0, 12))
    tiers = []
    while urls:
        k = rng.randint(1, len(urls))
        tiers.append(sorted(urls[:k]))
        urls = urls[k:]

    def other(d=0):
        k = rng.random()
        if k < .4 or d > 3:
            return ["s", rng.choice(texts)]
        if k < .6:
            return ["i", rng.randint(-10 ** 9, 10 ** 9)]
        if k < .8:
            return ["l", [other(d + 1) for _ in range(rng.randint(0, 3))]]
        return ["d", {rng.choice("abcdef"): other(d + 1) for _ in range(rng.randint(1, 3))}]
    n = rng.choice([1, 1, 2, 3, 6, 15, 40])
    mode = "single" if n == 1 and rng.random() < .6 else "multi"
    seen, files, k = set(), [], 0
    for _ in range(n):
        p = tuple(rng.randint(3, 40) for _ in range(1 if mode == "single" else rng.choice([1, 1, 2, 3, 5])))
        if any(p[:len(q)] == q or q[:len(p)] == p for q in seen) or p[0] == 1:
            continue
        seen.add(p)
        k += 1
        link = rng.random() < .1
        size = 0 if link else rng.choice([0, 1, 5, ps - 1, ps, ps + 1, 2 * ps, 3 * ps + 7, rng.randint(0, 6 * ps)])
        attr = rng.choice([[], [], [[]], [["x"]], [["h"]], [["x", "h"]]])
        if link:
            attr = [["l"] + (attr[0] if attr else [])]
        files.append({"path": list(p), "size": size, "attr": attr, "link": [[rng.randint(3, 40) for _ in range(rng.randint(1, 3))]] if link else [],
                      "sums": [[a, rng.randint(1, 99)] for a in ("md5", "sha1", "sha256", "sha512") if rng.random() < .2],
                      "root": k if size else 0, "layer": [1000 * k + j for j in range((size + ps - 1) // ps)] if size > ps else []})
        if mode == "multi" and rng.random() < .2 and k < n:
            q = rng.randint(1, ps - 1)
            files.append({"path": [1, 2], "size": q, "attr": [["p"]], "link": [], "sums": [], "root": 0, "layer": []})
    total = sum(f["size"] for f in files)
    return {"tiers": tiers, "comment": rng.choice(texts), "creator": rng.choice(texts), "date": ["i", rng.choice([0, 1, rng.randint(0, 2 ** 31 - 1)])], "coll": some(4), "http": some(4),
            "similar": [[rng.choice(["v1", "v2", "hybrid"]), i] for i in range(1, rng.randint(1, 5))], "web": some(4), "nodes": [[rng.choice(texts), p] for p in rng.sample(range(65536), rng.randint(0, 3))],
            "name": rng.choice(texts), "dir": "", "priv": rng.randint(0, 1), "source": rng.choice(texts), "other": {rng.choice(["zz", "publisher", "a", "x", "profiles"]): other() for _ in range(rng.randint(0, 3))},
            "cross": 0, "mode": mode, "psize": ps, "files": files, "pieces": [i + 1 for i in range((total + ps - 1) // ps)]}


def large_metas():
    """many of everything: pieces, files, names in a path, tiers, seeds, nodes, similar torrents, levels, and long texts"""
    base = {"tiers": [], "comment": "", "creator": "", "date": ["i", 0], "coll": [], "http": [], "similar": [], "web": [], "nodes": [], "name": "s1", "dir": "", "priv": 0, "source": "", "other": {},
            "cross": 0, "mode": "multi", "psize": 16384, "files": [], "pieces": []}
    file = lambda path, size, k, ps=16384: {"path": path, "size": size, "attr": [], "link": [], "sums": [], "root": k if size else 0,  # noqa: E731
                                            "layer": [1000 * k + j for j in range((size + ps - 1) // ps)] if size > ps else []}

    def full(**kw):
        m = dict(base, **kw)
        n = sum(f["size"] for f in m["files"])
        return dict(m, pieces=[i + 1 for i in range((n + m["psize"] - 1) // m["psize"])])
    nested = ["s", "s1"]
    for i in range(60):
        nested = ["l", [nested]] if i % 2 else ["d", {"k%d" % i: nested}]
    return [full(mode="single", files=[file([5], 700 * 16384 - 3, 1)]), full(files=[file([5], 66000 * 16384 - 3, 1)]),
            full(files=[file([5], 5, 1), file([6], 300 * 16384, 2), file([7], 257 * 16384 + 1, 3)]),
            full(files=[file([3 + i // 17, 3 + i % 17, 5], i + 1, i + 1) for i in range(270)]),
            full(files=[file([3 + i % 30 for i in range(70)], 5, 1), file([3 + i % 30 for i in range(69)] + [4, 9], 6, 2)]),
            full(files=[file([5], 5, 1)], tiers=[[i] for i in range(40, 0, -1)]),
            full(files=[file([5], 5, 1)], tiers=[list(range(1, 41))]),
            full(files=[file([5], 5, 1)], coll=["c%d" % i for i in range(300)], http=["h%d" % (i * 7 % 300) for i in range(300)], web=["w%d" % (i * 11 % 300) for i in range(300)],
                 nodes=[["n%d" % (i % 7), i * 211] for i in range(300)], similar=[[("v1", "v2")[i % 2], i + 1] for i in range(300)]),
            full(files=[file([5], 5, 1)], comment="s6", creator="s6", source="s6", name="s6", coll=["s6", "s1"], http=["s6"], web=["s6"], nodes=[["s6", 1]], other={"zz": ["s", "s6"]}),
            full(files=[file([5], 5, 1)], other={"zz": nested, **{"o%d" % i: ["i", i] for i in range(300)}})]


def scaled(w, u):
    """the specified writing of the same metafile with every size u times as large (MetafileModel: Homogeneous)"""
    def tree(v):
        if v[0] == "d":
            return ["d", {k: ["I", str(int(x[1]) * u)] if k in ("length", "piece length") else tree(x) for k, x in (v[1] or {}).items()}]
        return ["l", [tree(x) for x in v[1]]] if v[0] == "l" else v

    def sizes(m):
        return dict(m, psize=m["psize"] * u, files=[dict(f, size=f["size"] * u) for f in m["files"]])
    return dict(w, m=sizes(w["m"]), kept=sizes(w["kept"]), tree=tree(w["tree"]))


def replayed(chk, whats, metas=0, picks=0, edits=False, large=False):
    """runs the models and the harness; returns (writes, reads): pairs of the specification's record and the harness' answer"""
    rng = random.Random(chk.seed * 7919 + 17)
    d = vf.scratch()
    inp = os.path.join(d, "in.json")
    with open(inp, "w") as f:
        json.dump({"metas": [random_meta(rng) for _ in range(metas)] + (large_metas() if large else []), "picks": [[rng.randrange(10 ** 6) for _ in range(5)] for _ in range(picks)]}, f)
    binary, *rs = vf.pmap(lambda w: vf.tlc("MetafileModel", "MetafileModel_" + w, env={"INPUTS": inp}, mem="6g", timeout=1700) if w else vf.build("meta_h", ["meta_h.cpp"], "asan", lib="meta"), [None] + whats, 5)
    writes, reads = [], []
    for w, r in zip(whats, rs):
        chk.model_must_hold(r, "MetafileModel " + w)
        writes += r.printed("WRITE")
        reads += r.printed("READ")
    if large:
        writes += [scaled(w, 4096) for w in writes[::3] if w["m"]["files"]]
    sc = os.path.join(d, "scratch")
    os.mkdir(sc)
    lines = []
    for w in writes:
        m = meta(w["m"])
        m["other"] = {k: enc(v).hex() for k, v in m["other"].items()}
        lines.append(json.dumps({"op": "write", "m": m, "p": w["p"], "read": not w["open"], "edits": edits}))
    for r in reads:
        q = {"op": "read", "b": enc(val(r["t"])).hex()}
        if r["v"] == "read":
            q["p"] = r["p"]
        lines.append(json.dumps(q))
    ans, end = replay.run_parallel(binary, lines, args=(sc,), per_line=30)
    vf.shutil.rmtree(d)
    if end:
        chk.violation("process end", f"the process ended badly after answering: {end}", {"end": end})
    ans = [json.loads(a) if a.startswith("{") else {"died": a} if a != "SKIPPED" else None for a in ans]
    n = len(writes)
    return list(zip(writes, ans[:n], lines[:n])), list(zip(reads, ans[n:], lines[n:])), binary
