"""Writing and reading metafiles: every metafile of the model written by the real code, compared with the specified tree, read back and written again."""
import json

import vf
from props import meta_common as mc


def latin(v):
    if isinstance(v, bytes):
        return v.decode("latin1")
    if isinstance(v, list):
        return [latin(x) for x in v]
    if isinstance(v, dict):
        return {latin(k): latin(x) for k, x in v.items()}
    return v


def judge(w, a):
    """None, or what is wrong with the harness' answer to the metafile w"""
    if "died" in a or "threw" in a:
        return "writing or reading failed: " + (a.get("died") or bytes.fromhex(a["threw"]).decode("latin1"))
    try:
        b = bytes.fromhex(a["w"])
        tree = mc.dec(b)
    except mc.Bad as e:
        return f"what was written is no canonical bencoded value: {e}"
    exp = mc.val(w["tree"])
    if exp != tree:
        return f"written: expected {exp}, got {tree}"
    if "stdout" in a:
        return "something was written to the standard output: " + repr(bytes.fromhex(a["stdout"]))
    if a["same"]:
        return "not the same: " + ", ".join(a["same"])
    try:
        j = json.loads(bytes.fromhex(a["json"]))
    except ValueError:
        return "the JSON text is malformed: " + bytes.fromhex(a["json"])[:300].decode("latin1")
    if j != latin(tree):
        return f"JSON differs from what is written: {j}"
    if not w["open"]:
        d = mc.differs(mc.shown(w["kept"]), a["read"])
        if d:
            return "read back: " + d
        if sorted_sets(bytes.fromhex(a["rw"])) != sorted_sets(b):
            return f"written again: {bytes.fromhex(a['rw'])!r} instead of {b!r}"


def sorted_sets(b):
    """the order of collections and similar torrents is free"""
    v = mc.dec(b)
    for k in (b"collections", b"similar"):
        if k in v:
            v[k] = sorted(v[k])
    return mc.enc(v)


def judge_read(r, a):
    if "died" in a or "threw" in a:
        return "reading failed: " + (a.get("died") or bytes.fromhex(a["threw"]).decode("latin1"))
    if "refused" in a:
        return "refused: " + bytes.fromhex(a["refused"]).decode("latin1")
    if not a["same"] or a.get("mixed"):
        return "the ways of reading differ"
    d = mc.differs(mc.shown(r["m"]), a["read"])
    if d:
        return d
    try:
        if mc.val(r["w"]) != mc.dec(bytes.fromhex(a["rw"])):
            return f"written again: expected {mc.val(r['w'])}, got {mc.dec(bytes.fromhex(a['rw']))}"
    except mc.Bad as e:
        return f"written again: no canonical bencoded value: {e}"


def run(chk):
    writes, reads, _ = mc.replayed(chk, ["write", "foreign"], metas=6000 if chk.thorough else 400, large=True)
    for w, a, ln in writes:
        if a is None:
            continue
        e = judge(w, a)
        if e:
            chk.violation("write " + w["p"] + " " + json.dumps(w["m"], sort_keys=True)[:160], f"protocol {w['p']}, metafile {json.dumps(w['m'])[:700]}: {e[:1500]}", {"request": ln, "answer": a, "what": e})
        else:
            chk.traces += 1
    n = 0
    for r, a, ln in reads:
        if a is None or r["v"] != "read":
            continue
        n += 1
        e = judge_read(r, a)
        if e:
            chk.violation("read " + str(mc.enc(mc.val(r["t"])))[:160], f"reading {mc.enc(mc.val(r['t']))[:900]!r}: {e[:1200]}", {"request": ln, "answer": a, "what": e})
        else:
            chk.traces += 1
    chk.cov.update(metafiles_written=len(writes), foreign_torrents_read=n)
    chk.sample({"metafile": writes[5][0]["m"], "protocol": writes[5][0]["p"], "written": bytes.fromhex(writes[5][1].get("w", "")).decode("latin1")[:600]} if writes[5][1] else "-")
    chk.assumptions.append("metafiles beyond the enumerated field values and storages are sampled; the order of similar torrents and collections is free; a v2-only file does not say whether it is a single-file torrent; the bencode library is a stand-in")
