"""Flag sets: all pairs of eight-flag sets and sequences of assigning operations, enumerated by TLC."""
import vf
from props import replay


def run(chk):
    b = vf.build("flags_h", ["flags_h.cpp"], "asan", libs=())
    r = vf.tlc("FlagsModel")
    chk.model_must_hold(r, "FlagsModel")
    cases, ct = [], {}
    for a, bb, o, n, x, c in r.printed("EXPR"):
        exp = f"{o} {n} {x} {c} {o} r {n} r {x} r {bb & ~a} "
        cases.append((f"x {a} {bb}", exp, "or, and, xor, not, |=, &=, ^=, (a|b)&~a"))
        if a < 8 and bb < 8:
            ct[f"{a} {bb}"] = f"{a} {bb} {o} {n} {x} {c} {o} {n} {x}"
    for h, a, bb in r.printed("SEQ"):
        w = [",".join(h[0])] + [",".join(e) if e[1] else e[0] for e in h[1:]]
        cases.append(("s " + " ".join(w), f"{a} {bb}", "sequence of assigning operations"))
    ans, end = replay.run_parallel(b, [c[0] for c in cases])
    replay.compare(chk, cases, ans, end)
    chk.sample({"request": cases[777][0], "expected": cases[777][1]})
    chk.sample({"request": cases[-1][0], "expected": cases[-1][1]})
    # at compile time: if only this does not compile, the operators cannot be used in constant expressions any more
    try:
        cb = vf.build("flags_ct_h", ["flags_ct_h.cpp"], "plain", libs=())
        out = vf.run([cb]).stdout.splitlines()
        if out[0] != "usable 127 127 0 0":
            chk.violation("which enumerations", f"operators usable (flags, flags, others, others): expected 127 127 0 0, got {out[0]}", {"got": out[0]})
        for ln in out[1:]:
            k = " ".join(ln.split()[:2])
            if ln != ct[k]:
                chk.violation("compile time " + k, f"constant expression: expected {ct[k]}, got {ln}", {"input": k, "expected": ct[k], "got": ln})
        chk.traces += len(out)
    except vf.Error as e:
        if "compile failed" not in str(e):
            raise
        chk.violation("compile time", "the operators cannot be evaluated in constant expressions: " + str(e)[-600:], {"error": str(e)[-3000:]})
    lb = vf.build("flags_lib_h", ["flags_lib_h.cpp"], "plain", prelude=True, libs=())
    got = dict(ln.rsplit(" ", 1) for ln in vf.run([lb]).stdout.splitlines())
    want = {"protocol none": 0, "protocol v1": 1, "protocol v2": 2, "protocol hybrid": 3, "protocol v1|v2": 3, "protocol hybrid&v1": 1, "protocol hybrid&v2": 2,
            "protocol v1&v2": 0, "protocol hybrid^v1": 2, "protocol hybrid&~v1": 2, "options implied": 1, **{f"attributes {m}": m for m in range(16)}}
    for k, v in want.items():
        if got.get(k) != str(v):
            chk.violation("library " + k, f"{k}: expected {v}, got {got.get(k)}", {"input": k, "expected": v, "got": got.get(k)})
    chk.traces += len(want)
