"""Names, digests, checksums and info hashes against Digests.tla."""
import vf
from props import replay
from props.c21 import hx


def edits(names):
    out = set()
    alpha = "abdehimprsuw0123456789_-"
    for n in names:
        for i in range(len(n) + 1):
            out.update(n[:i] + c + n[i:] for c in alpha)
        for i in range(len(n)):
            out.add(n[:i] + n[i + 1:])
            out.update(n[:i] + c + n[i + 1:] for c in alpha)
            out.add(n[:i] + n[i].upper() + n[i + 1:])
    out |= {"", " ", "sha", "sha1\0", "none", "md2", "SHA-256", "\xff"}
    return sorted(out)


def run(chk):
    b = vf.build("digest_h", ["digest_h.cpp"], "asan", prelude=True, repo_src=["src/hasher/backends/openssl.cpp"])
    r = vf.tlc("DigestsModel")
    chk.model_must_hold(r, "DigestsModel")
    sizes = r.printed("SIZES")[0]
    cases = [("count", f"{len(sizes)} {len(sizes)}", "number of supported functions"), ("badfn", "no", "unsupported functions have no name and no checksum")]
    for n, s in sizes.items():
        cases.append((f"traits {n}", f"{s} {s * 8} {n} 1 1 {s} {n} {s}", "size, bits, name, occurrences, checksum size and name"))
        for i, bad in enumerate(["g", "/", ":", "@", "`", "\x00", " ", "-", "\xff", "\xb0"]):
            for pos in (0, 1, 2 * s - 1):
                t = bytearray(b"0" * (2 * s))
                t[pos] = ord(bad)
                cases.append((f"badhex {n} {t.hex()}", "no", "text with a character that is no digit"))
                cases.append((f"badchk {n} {t.hex()}", "no", "text with a character that is no digit"))
        for ln in (2 * s - 1, 2 * s + 1, 2 * s - 2, 2 * s + 2):
            cases.append((f"badhex {n} {(b'0' * ln).hex()}", "no", "text of the wrong length"))
            cases.append((f"badchk {n} {(b'0' * ln).hex()}", "no", "text of the wrong length"))
    for n in edits(sizes):
        x = n.encode("latin-1").hex() or "-"
        cases.append((f"name {x}", f"1 {n}" if n in sizes else "0 no", f"name {n!r}"))
    for n in sizes:
        cases.append((f"name {n.encode().hex()}", f"1 {n}", f"name {n!r}"))
    for f, v, ok in r.printed("DIGEST"):
        cases.append((f"digest {f} {hx(v)}", hx(v) if ok else "no", "digest value"))
    for f, v, w, c in r.printed("CMP"):
        cases.append((f"cmp {f} {hx(v)} {hx(w)}", f"{c} {'eq' if c == 0 else 'ne'} {'lt' if c < 0 else 'ge'}", "comparison of digests and checksums"))
    for n, v, ok, known in r.printed("CHK"):
        x = n.encode().hex() or "-"
        cases.append((f"chk {x} {hx(v)}", f"{x} {n if known else 'generic'} {hx(v)}" if ok else "no", "checksum value"))
    for n, v, m, w, o in r.printed("CMPCHK"):
        cases.append((f"cmpchk {n.encode().hex()} {hx(v)} {m.encode().hex()} {hx(w)}", f"{o} {'eq' if o == '0' else 'ne'}", "comparison of checksums"))
    for i, j, o in r.printed("INFO"):
        rest = str((1 if i["v1"] else 0) + (2 if i["v2"] else 0))
        if i["v1"]:
            rest += f" {hx(i['v1'])} {hx(i['v1'])}"
        if i["v2"]:
            rest += f" {hx(i['v2'])} {hx(i['v2'])} {hx(i['v2'][:20])}"
        allowed = {f"{x} {'eq' if x == 0 else 'ne'} {rest}" for x in o}
        cases.append((f"info {hx(i['v1'])} {hx(i['v2'])} {hx(j['v1'])} {hx(j['v2'])}", (lambda g, al=allowed: g in al), f"info hashes: {sorted(allowed)[0]}"))
    for ln1, ln2 in ((19, 0), (21, 0), (0, 31), (0, 33), (20, 31), (19, 32), (32, 20), (32, 0), (0, 20)):
        cases.append((f"badinfo {hx([7] * ln1)} {hx([7] * ln2)}", "no", "info hash of the wrong length"))
    ans, end = replay.run_parallel(b, [c[0] for c in cases])
    replay.compare(chk, cases, ans, end)
    for k in (5, 3000, 9000):
        chk.sample({"request": cases[k % len(cases)][0], "expected": str(cases[k % len(cases)][1])})
