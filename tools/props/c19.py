"""Magnet links: links and texts enumerated by TLC (Magnet.tla), written and read by the real code; the written texts are read by the specification."""
import json
import os

import vf
from props import replay
from props.c21 import hx

LISTS = ("xt", "tr", "ws", "as", "pe")
ORDER = ("xt", "dn", "xl", "tr", "ws", "as", "xs", "kt", "mt", "pe")
B = lambda s: list(s.encode("latin1"))  # noqa: E731
VALS = ["", "urn:btih:0123456789abcdef0123456789abcdef01234567", "a", "a b", "%41", "+", "a+b", "x&dn=y", "=", "a:80", "host.example:6881", "[::1]:6881",
        "http://h/a?b=c&d=e#f", "\0", "\xff\xfe", "\x80", "~-._", "%", "100%", "tr=q", "A" * 70]
TOKS = ["&", "=", "xt", "dn", "xl", "tr", "kt", "x.pe", "a", "%41", "%2B", "%", "+", "0", "18446744073709551615"]
FIXED = ["", "magnet:", "magnet", "magnet:xt=a", "Magnet:?xt=a", "MAGNET:?", "magnet:?", "http://x", " magnet:?xt=a", "magnet:?xt=urn:btih:ab&dn=na%20me&xl=18446744073709551615&tr=udp%3A%2F%2Ft&ws=w&as=s&xs=e&kt=a+b+c&mt=m&x.pe=1.2.3.4:5",
         "magnet:?xl=18446744073709551616", "magnet:?xl=99999999999999999999999", "magnet:?xl=", "magnet:?xl=-1", "magnet:?xl=1x", "magnet:?xl= 1", "magnet:?xl=0x10", "magnet:?xl=007", "magnet:?xl=1&xl=2",
         "magnet:?dn=a&dn=b", "magnet:?tr=a&tr=a", "magnet:?xt", "magnet:?&", "magnet:?&xt=a", "magnet:?xt=a&", "magnet:?xt=a&&dn=b", "magnet:?=", "magnet:?=a", "magnet:?xt==", "magnet:?dn=a=b", "magnet:?DN=a", "magnet:?xt.1=a&tr.1=b",
         "magnet:?dn=%", "magnet:?dn=%4", "magnet:?dn=%4g", "magnet:?dn=%zz", "magnet:?dn=%c3%a9", "magnet:?kt=+", "magnet:?kt=a+", "magnet:?kt=%2b+a%2Bb", "magnet:?kt=%", "magnet:?zz=%", "magnet:?zz", "magnet:?xs=a&xs=", "magnet:?dn=a+b"]


def inputs(chk):
    rng = __import__("random").Random(chk.seed)
    texts = [B(x) for x in FIXED]
    texts += [[c] for c in range(256)] + [B("magnet:?dn=") + [c] for c in range(256)] + [B("magnet:?xl=1") + [c] for c in range(256)] + [B("magnet:?x") + [c] + B("=1") for c in range(256)]
    for _ in range(20000 if chk.thorough else 2500):
        ps = []
        for _ in range(rng.randint(0, 6)):
            k = rng.choice(["xt", "dn", "xl", "tr", "ws", "as", "xs", "kt", "mt", "x.pe", "zz", "d", ""])
            n = rng.choice([0, 1, 2, 5, 30])
            v = "".join(rng.choice(["%%%02X" % rng.randrange(256), "%%%02x" % rng.randrange(256), chr(rng.randrange(256)), "+", rng.choice("abc019:/ "), rng.choice("%&=") if rng.random() < .1 else "b"]) for _ in range(n))
            if k == "xl" and rng.random() < .8:
                v = str(rng.choice([0, 1, rng.randrange(10 ** 6), rng.randrange(2 ** 64), 2 ** 64 - 1, 2 ** 64]))
            ps.append(k + "=" + v)
        t = "magnet:?" + "&".join(ps)
        if rng.random() < .15 and len(t) > 1:
            i = rng.randrange(len(t))
            t = t[:i] + chr(rng.randrange(256)) * rng.randint(0, 2) + t[i + 1:]
        texts.append(B(t))
    # many parameters, long values
    texts += [B("magnet:?xt=a" + "".join("&%s=%s%d" % (k, k, i) for i in range(300))) for k in ("tr", "ws", "x.pe", "zz")]
    texts += [B("magnet:?kt=" + "+".join("k%d" % (i * 7 % 300) for i in range(300))), B("magnet:?dn=" + "a%20" * 700 + "&tr=" + "b" * 3000 + "&mt=%C3%A9"), B("magnet:?" + "&".join("xt=" + "%41" * 90 for _ in range(9)))]
    return {"texts": texts, "toks": [B(x) for x in TOKS], "vals": [B(x) for x in VALS]}


def lst(v):
    return "".join(hx(x) + "," for x in v)


def show(m):
    return " ".join(f"{k}=" + (lst(m[k]) if k in LISTS else lst(sorted(m[k])) if k == "kt" else (bytes(m[k]).decode() or "0") if k == "xl" else hx(m[k])) for k in ORDER)


def request(m, rng):
    ks = list(ORDER)
    rng.shuffle(ks)
    o = []
    for k in ks:
        if k in LISTS or k == "kt":
            v = list(m[k])
            if k == "kt":
                rng.shuffle(v)
            if v:
                o.append(f"{k}=" + ",".join(hx(x) for x in v))
        elif k == "xl":
            if m[k]:
                o.append("xl=" + bytes(m[k]).decode())
        elif m[k]:
            o.append(f"{k}={hx(m[k])}")
    return "W " + " ".join(o)


def run(chk):
    b = vf.build("magnet_h", ["magnet_h.cpp"], "asan", lib="meta")
    rng = __import__("random").Random(chk.seed)
    d = vf.scratch()
    p = os.path.join(d, "in.json")
    with open(p, "w") as f:
        json.dump(inputs(chk), f)
    deep = "Deep" if chk.thorough else ""
    rl, rt = vf.pmap(lambda c: vf.tlc("MagnetModel", "MagnetModel_" + c, env={"INPUTS": p}, mem="8g", workers=4, timeout=1700), ["links", "texts" + deep])
    chk.model_must_hold(rl, "MagnetModel links")
    chk.model_must_hold(rt, "MagnetModel texts")
    links = rl.printed("LINK")
    if chk.thorough:                                   # random combinations of everything
        for _ in range(6000):
            src = [rng.choice(links)[0] for _ in range(4)]
            links.append([{k: rng.choice(src)[k] for k in ORDER}, []])
    lines = [request(m, rng) for m, _ in links]
    ans, end = replay.run_parallel(b, lines, per_line=20)
    cases, log = [], []
    for (m, _), ln, a in zip(links, lines, ans):
        e = show(m)
        cases.append((ln, lambda g, e=e: g.split(" ; ")[1:] == [e, e], f"fields of the link and of the link read back, should be {e}"))
        if a.count(" ; ") == 2:
            t = a.split(" ; ")[0]
            urn = any(bytes(x).startswith(b"urn:") for x in m["xt"])
            log.append({"l": m, "t": list(bytes.fromhex(t)) if t != "-" else [], "urn": urn})
    replay.compare(chk, cases, ans, end)
    tp = os.path.join(d, "trace.ndjson")
    with open(tp, "w") as f:
        f.writelines(json.dumps(x) + "\n" for x in log)
    r = vf.tlc("MagnetTrace", env={"TRACE": tp}, mem="8g")
    chk.add_tlc(r, "MagnetTrace: written texts")
    if not r.ok and not r.printed("BAD"):
        raise vf.Error(r.out[-3000:])
    for i in r.printed("BAD"):
        x = log[i - 1]
        chk.violation("written " + show(x["l"])[:150], f"the text {bytes(x['t'])!r} was written for the link {show(x['l'])}: it is no well-formed link that says the same", x)
    texts = [(f"R {hx(t)}", m if m == "refused" else show(m), f"reading {bytes(t)!r}") for t, m in rt.printed("TEXT")]
    texts += [(f"R {hx(t)}", show(m), f"reading {bytes(t)!r}") for m, t in links if t]
    ans, end = replay.run_parallel(b, [c[0] for c in texts], per_line=20)
    replay.compare(chk, texts, ans, end, "read ")
    chk.traces += len(log)
    chk.cov.update(links=len(links), texts=len(texts), texts_written=len(log))
    chk.sample({"link": lines[1][:300], "text": bytes(log[1]["t"]).decode("latin1")[:300]}) if len(log) > 1 else None
    chk.sample({"text": bytes.fromhex(texts[9][0][2:]).decode("latin1") if texts[9][0] != "R -" else "", "expected": texts[9][1]})
    vf.shutil.rmtree(d)
    chk.assumptions.append("parameter values beyond the enumerated ones are sampled; empty keywords cannot be expressed in a link and are not written; of a repeated single-valued parameter the last one counts")
