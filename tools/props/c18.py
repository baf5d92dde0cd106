"""Info hashes: compared with digests of the info dictionary's bytes cut out of what the real code writes and reads."""
import hashlib
import itertools
import json

from props import meta_common as mc


def info(b):
    spans = {}
    mc.dec(b, spans)
    a, e = spans[(b"info",)]
    return b[a:e]


def digests(h, p, raw, what):
    """None, or what is wrong with the hashes h, as the harness shows them, of a metafile of protocol p with the info bytes raw"""
    if h["proto"] != p:
        return None
    if p != "v2" and h["h1"] != hashlib.sha1(raw).hexdigest():
        return f"{what}: v1 info hash {h['h1']}, SHA-1 of the info dictionary {hashlib.sha1(raw).hexdigest()}"
    if p != "v1":
        d = hashlib.sha256(raw).hexdigest()
        if h.get("h2") != d:
            return f"{what}: v2 info hash {h.get('h2')}, SHA-256 of the info dictionary {d}"
        if h.get("t2") != d[:40]:
            return f"{what}: truncated v2 info hash {h.get('t2')} instead of {d[:40]}"


def magnet(w, a):
    m = mc.meta(w["m"])
    proto, h = a["hash"]["proto"], a["hash"]
    if proto != w["p"] or a["magnet"] is None:
        return None
    for want, g in a["magnet"].items():
        x = want if proto == "hybrid" else proto
        xt = (["urn:btih:" + h["h1"]] if x != "v2" else []) + (["urn:btmh:1220" + h["h2"]] if x != "v1" else [])
        exp = {"xt": [t.encode().hex() for t in xt], "dn": m["name"], "tr": [u for t in m["tiers"] for u in t], "ws": m["web"], "pe": [(bytes.fromhex(n) + b":%d" % p).hex() for n, p in m["nodes"]]}
        for k, e in exp.items():
            if g[k] != e:
                return f"magnet link for {want} of a {proto} metafile: {k} should be {e}, is {g[k]}"


def judge(w, a):
    if "died" in a or "threw" in a:
        return "failed: " + (a.get("died") or bytes.fromhex(a["threw"]).decode("latin1"))
    try:
        b = bytes.fromhex(a["w"])
        raw = info(b)
        e = digests(a["hash"], w["p"], raw, "as built") or magnet(w, a)
        if e or w["open"]:
            return e
        e = digests(a["rhash"], w["p"], raw, "as read back")
        for s in a["edits"]:
            x = info(bytes.fromhex(s["w"]))
            e = e or digests(s["hash"], w["p"], x, "after editing: " + s["what"])
            if s["what"].startswith("fields outside") and x != raw and not w["m"]["cross"]:
                e = e or "edits outside the info dictionary changed it"
            if s["what"] == "source" and x == raw:
                e = e or "another source gives the same info dictionary"
        steps = [("as built", raw)] + [(s["what"], info(bytes.fromhex(s["w"]))) for s in a["cross"]]
        for s, (_, x) in zip(a["cross"], steps[1:]):
            e = e or digests(s["hash"], w["p"], x, "cross seeding: " + s["what"])
        for i, j in itertools.combinations(range(len(steps)), 2):
            if (steps[i][1] == steps[j][1]) != (w["cross"][i] == w["cross"][j]):
                e = e or f"cross seeding: the info dictionaries of '{steps[i][0]}' and '{steps[j][0]}' should {'' if w['cross'][i] == w['cross'][j] else 'not '}be the same"
        return e
    except mc.Bad as x:
        return f"what was written is no canonical bencoded value: {x}"


def run(chk):
    writes, reads, _ = mc.replayed(chk, ["write", "foreign"], metas=6000 if chk.thorough else 300, edits=True)
    n = 0
    for w, a, ln in writes:
        if a is None:
            continue
        e = judge(w, a)
        if e:
            chk.violation("hash " + w["p"] + " " + json.dumps(w["m"], sort_keys=True)[:160], f"protocol {w['p']}, metafile {json.dumps(w['m'])[:700]}: {e[:1500]}", {"request": ln, "answer": a, "what": e})
        else:
            chk.traces += 1
            n += a["hash"]["proto"] == w["p"]
    same = 0
    for r, a, ln in reads:
        if a is None or r["v"] != "read":
            continue
        t = mc.val(r["t"])
        if "rhash" not in a:
            e = "not read: " + str(a)[:300]
        elif mc.val(r["w"])[b"info"] != t[b"info"]:
            continue                       # the metafile cannot hold all of this info dictionary
        else:
            same += 1
            e = digests(a["rhash"], r["p"], mc.enc(t[b"info"]), "of the torrent read")
        if e:
            chk.violation("hash of " + str(mc.enc(t))[:160], f"reading {mc.enc(t)[:900]!r}: {e}", {"request": ln, "answer": a, "what": e})
        else:
            chk.traces += 1
    chk.cov.update(metafiles=len(writes), hashes_compared=n, foreign_torrents=same)
    if writes and writes[5][1]:
        chk.sample({"metafile": writes[5][0]["m"], "protocol": writes[5][0]["p"], "hash": writes[5][1].get("hash")})
    chk.assumptions.append("judged where the protocol of the storage is the one written; info dictionaries of other programs with fields the library does not keep (private=0, unknown file keys) are outside; metafiles beyond the enumerated ones are sampled")
