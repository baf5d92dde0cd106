"""Life cycle and progress of hashers and verifiers: a model of the threads is checked with TLC; histories of the real
pipeline under controlled schedules (and free-running under sanitizers) are behaviours of Lifecycle.tla."""
import json
import random

import vf
from props import replay, sched
from props.pipe_common import World, binaries, explore, layout

OPS = [
    "start,wait,poll,state",
    "poll,state,start,state,poll,poll,wait,poll,state,destroy",
    "start,poll,p20,poll,p50,poll,p100,poll,p200,poll,wait,poll,poll",
    "start,state,p400,poll,state,p900,poll,wait,state",
    "start,cancel,state,poll",
    "start,cancel,destroy",
    "start,p30,cancel,state,poll,destroy",
    "start,p100,poll,cancel,poll,state,wait,start,cancel,poll,state,destroy",
    "start,p250,cancel,poll,state",
    "start,p500,cancel,poll,state",
    "start,p1200,poll,cancel,poll,state",
    "cancel,state,poll,start,wait,cancel,state,destroy",
    "state,destroy",
    "start,start,wait,wait,cancel,start,state,poll",
    "wait,state,start,wait,poll",
]
# [files], piece size
LAYOUTS = [
    [[100], 16384], [[0], 16384], [[0, 5, 0], 16384], [[16384 * 7], 16384], [[16384 * 3 + 1, 0, 16384 * 2, 40000], 16384],
    [[65536, 1, 65535], 32768], [[5000, "p11384", 16384 * 4, 70000], 16384], [[16384] * 6, 16384], [[1, 2, 3, 20000, 4, 5], 16384], [[90000, 3], 65536],
]


def program(rng, k, small, multi=False):
    if k < len(LAYOUTS) * 4:
        raw, P = LAYOUTS[k % len(LAYOUTS)]
        files = [{"s": int(str(x).lstrip("p")), "k": "pad" if str(x)[0] == "p" else "file"} for x in raw]
    elif small:
        P = rng.choice([16384, 16384, 32768])
        files = [{"s": rng.choice([0, 1, P - 1, P, P + 1, 2 * P, 3 * P - 7]), "k": "file"} for _ in range(rng.randint(1, 4))]
    else:
        files, P, _ = layout(rng, pads=False)
    mode = rng.choice(["hash", "hash", "verify"])
    proto = rng.choice(["v1", "v2", "hybrid"] if mode == "hash" else ["v1", "v2"])
    if proto != "v1":
        files = [f for f in files if f["k"] == "file"]
    tot = sum(f["s"] for f in files)
    reg = sum(f["s"] for f in files if f["k"] == "file")
    sizes = [f["s"] for f in files]
    done, hashed = tot, tot
    if proto == "hybrid":
        al, n = [], [i for i, f in enumerate(files)]
        for i, f in enumerate(files):
            al.append(f)
            if i < len(files) - 1 and f["s"] % P:
                al.append({"s": P - f["s"] % P, "k": "pad"})
        tot = sum(f["s"] for f in al)
        sizes = [f["s"] if f["k"] == "file" else 0 for f in al]
        done = reg
        hashed = (reg + tot) // 2
    t = {"read": tot, "done": done, "hmin": hashed, "hmax": hashed, "sizes": sizes}
    extra = f"proto={proto} piece={P} block={P if small else rng.choice([0, P, 4 * P])} threads={rng.choice([1, 2, 3] if small else [1, 2, 4, 8])} mem={1 if small else rng.choice([0, 1])} "
    if multi:
        extra += f"lanes={rng.choice([0, 1, 2, 4, 8, 16])} order={rng.randrange(6)} "
    if mode == "hash" and rng.random() < .3:
        extra += "sums=" + ",".join(rng.sample(["md5", "sha1", "sha256"], rng.choice([1, 1, 2]))) + " "
    if mode == "verify":
        n = -(-tot // P)
        extra += f"v1={'00' * 20 * n} " if proto == "v1" and n else ""
        extra += "v2=" + ",".join(f"{i}=" + "11" * 32 + "/" for i, s in enumerate(sizes) if s) + " " if proto == "v2" and reg else ""
    ops = OPS[k % len(OPS)] if rng.random() < .6 else rng.choice(OPS)
    if rng.random() < .25:
        # an error of the device at some read
        extra += rng.choice([f"eio={rng.choice([1, 1, 2, 3, 4, 6])} ", f"eio={rng.choice([1, 1, 2, 3, 4, 6])} ", f"eopen={rng.choice([1, 1, 2, 3])} "])
        ops = rng.choice(["start,wait,state,poll,destroy", "start,poll,p100,poll,wait,state,wait,poll", "start,p100,cancel,state", "start,wait,start,cancel"])
    dmg = [""] * len(files)
    if mode == "verify" and rng.random() < .3 and "eopen" not in extra:
        i = rng.randrange(len(files))
        dmg[i] = rng.choice([":miss", ":dir", f":trunc@{files[i]['s'] // 2}", ":ext@9"])
        t["hmin"] = 0
    cells = "".join(f" | pad:{f['s']}" if f["k"] == "pad" else f" | f{i}:{f['s']}:{i % 7}{dmg[i]}" for i, f in enumerate(files))
    return f"{mode} {extra}ops={ops}{cells}", t


def events(h):
    return [e for e in h if e[0] in ("call", "return", "raise", "poll", "state")]


def run(chk):
    th = chk.thorough
    for c in ["safe", "sums", "live", "livesums"] + ["deep", "deeplive", "deeplivesums"] * th:
        chk.model_must_hold(vf.tlc("PipelineImpl", "PipelineImpl_" + c, workers=8, args=("-lncheck", "final"), mem="12g"), "PipelineImpl_" + c)
    chk.model_must_hold(vf.tlc("LifecycleModel", workers=4), "LifecycleModel")
    lives(chk, 1200 if th else 150, 3000 if th else 400)


def lives(chk, scheduled, free, multi=False):
    th = chk.thorough
    w = World(chk)
    try:
        asan, sch = binaries(chk, multi)
        rng = random.Random(chk.seed * 211 + 3)
        lines, data = [], {}
        for k in range(scheduled):
            body, t = program(rng, k, True, multi)
            mode, rest = body.split(" ", 1)
            for m in ("rand", "pct"):
                i = f"{m}{k}"
                lines.append(f"{i} {mode} mode={m} execs={300 if th else 25} sec={12 if th else 2} seed={chk.seed + k} steps=80000 bound=1 {rest}")
                data[i] = t
        outs, _ = explore(chk, sch, w, lines)
        byid = {x.split()[0]: x for x in lines}
        hists = []
        for o in outs:
            if o["race"] or o["st"] != "done":
                report(chk, sch, w, byid[o["id"]], o, data, "data race: " + o["msg"] if o["race"] else {"stuck": "deadlock", "limit": "does not end"}.get(o["st"], o["st"]) + ": " + o["msg"])
            else:
                hists.append(({"t": data[o["id"]], "ev": events(o["h"])}, o, byid[o["id"]]))
        # free-running, with larger layouts
        progs = [] if chk.violations else [program(rng, k, False, multi) for k in range(free)]
        progs = [(f"f{k} {b}", t) for k, (b, t) in enumerate(progs)]
        ans, end = replay.run_parallel(asan, [p[0] for p in progs], args=[w.dir], per_line=60)
        for (ln, t), got in zip(progs, ans):
            if got == "SKIPPED":
                continue
            if got.startswith("DIED"):
                chk.violation(ln.split(" ", 1)[1][:200], f"the process died or did not end: {got} :: {ln[:600]}", {"input": ln, "got": got})
            else:
                hists.append(({"t": t, "ev": events(json.loads(got))}, None, ln))
        if end:
            chk.violation("process end", f"the process ended badly after answering: {end}", {"end": end})
        uniq = {}
        for h in hists:
            uniq.setdefault(json.dumps(h[0]), h)
        hs = list(uniq.values())
        for i in sched.validate(chk, [h[0] for h in hs], "LifecycleTrace", "LifecycleTrace", "histories"):
            h, o, ln = hs[i]
            why = f"not a behaviour of the life-cycle specification (totals {h['t']}): {json.dumps(h['ev'])[:700]}"
            if o is None:
                chk.violation(ln.split(" ", 1)[1][:200], f"{why} :: {ln[:400]}", {"input": ln, "history": h})
            else:
                report(chk, sch, w, ln, o, data, why)
        chk.traces += len(hs)
        chk.cov["distinct_histories"] = len(hs)
        chk.cov["faulty_device_programs"] = sum(" eio=" in x or " eopen=" in x for x in lines) + sum(" eio=" in p[0] or " eopen=" in p[0] for p in progs)
        for h in hs[:2] + hs[-1:]:
            chk.sample({"program": h[2][:200], "history": h[0]["ev"][:30]})
    finally:
        w.close()
    chk.assumptions += ["one thread controls a hasher; it is not destroyed while running", "a run of 80000 scheduling steps under a fair schedule that has not ended never ends",
                        "schedules of the real threads are sampled (random and priority based); the thread model is exhausted for the stated sizes"]


def report(chk, binary, w, ln, o, data, why):
    if len(chk.violations) >= 12:
        return
    r = vf.run([binary, w.dir, o["sched"]], ln + "\n", timeout=300)
    same = [g for g in map(json.loads, r.stdout.splitlines()) if g["h"] == o["h"] and g["st"] == o["st"] and g["race"] == o["race"]]
    if not same:
        r = vf.run([binary, w.dir], ln + "\n", timeout=300)
        outs = [g for g in map(json.loads, r.stdout.splitlines()) if "summary" not in g]
        if not any(g["race"] or g["st"] != "done" for g in outs):
            if not sched.validate(chk, [{"t": data[g["id"]], "ev": events(g["h"])} for g in outs], "LifecycleTrace", "LifecycleTrace", "confirmation"):
                chk.unconfirmed("a suspected violation did not reproduce: " + ln + " " + why)
                return
    chk.violation(ln.split(" ", 8)[8][:160] + why[:40], f"under a controlled schedule: {why} :: {ln[:600]}", {"program": ln, "schedule": o["sched"], "history": o["h"], "status": o["st"], "why": why})
