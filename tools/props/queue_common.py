"""concurrent_queue: explore schedules of the real code, validate every distinct history with TLC."""
import json
import random

import vf
from props import sched

# (capacity, thread programs); explored by DFS with preemption bounding
CURATED = [
    (1, ["push:1 push:2", "pop pop"]),
    (1, ["push:1", "push:2", "pop pop"]),
    (1, ["push:1 pushc:2 push:3", "pop pop pop"]),
    (2, ["push:1 push:2 push:3", "pop pop", "trypop"]),
    (1, ["pop", "pop", "push:1 push:2"]),
    (1, ["pop", "pop", "push:1", "push:2"]),
    (1, ["push:1", "push:2", "push:3", "pop pop pop"]),
    (1, ["try:1 try:2", "trypop size", "try:3"]),
    (2, ["try:1 try:2", "try:3 trypop"]),
    (1, ["push:1 push:2", "cap:2"]),
    (1, ["push:1 push:2", "push:3", "cap:3"]),
    (2, ["push:1 push:2 try:3", "cap:1 trypop", "trypop"]),
    (2, ["push:1 push:2", "cap:1", "try:4 size"]),
    (3, ["push:1 push:2 push:3", "cap:1 try:9 trypop trypop try:8"]),
    (3, ["push:1 push:2 push:3 cap:1", "push:4", "pop pop pop"]),
    (0, ["push:1", "cap:1", "pop"]),
    (0, ["try:1", "pop", "cap:1 try:2"]),
    (2, ["push:1 size push:2 size", "size pop size"]),
    (1, ["push:1 trypop", "try:2 pop"]),
    (2, ["pushc:1 pushc:2", "pop", "pop"]),
    (1, ["push:1 push:2", "trypop trypop", "pop"]),
    (1, ["try:1", "pop", "pop", "push:2"]),
    (2, ["push:1", "push:2", "push:3", "trypop", "pop pop"]),
]




def families():
    """several waiters on one side, one thread that enables them in a burst"""
    out = []
    for cap in (1, 2, 3):
        pre = "@ " + " ".join(f"push:{k}" for k in range(1, cap + 1))
        for np in (2, 3):
            pushers = [f"{'push' if k % 2 else 'pushc'}:{10 + k}" for k in range(np)]
            out.append((cap, [pre] + pushers + ["pop pop"]))
            out.append((cap, [pre] + pushers + ["trypop trypop pop"]))
            out.append((cap, [pre] + pushers + [f"cap:{cap + 2}"]))
            out.append((cap, [pre] + pushers + ["pop", "pop"]))
    for nc in (2, 3):
        poppers = ["pop"] * nc
        out.append((4, poppers + ["push:1 push:2"]))
        out.append((4, poppers + ["pushc:1 pushc:2"]))
        out.append((4, poppers + ["try:1 try:2"]))
        out.append((4, poppers + ["push:1 try:2 pushc:3"]))
        out.append((4, poppers + ["push:1", "try:2", "pushc:3"]))
    return out


def random_prog(rng):
    cap = rng.choice([0, 1, 1, 1, 2, 2, 3])
    nt = rng.choice([2, 2, 3, 3, 4])
    val = [0]

    def nxt():
        val[0] += 1
        return val[0]
    ths = []
    for _ in range(nt):
        ops = []
        for _ in range(rng.randint(1, 4 if nt < 4 else 2)):
            k = rng.choices(["push", "pushc", "try", "pop", "trypop", "size", "cap"], [5, 1, 3, 5, 3, 1, 1.5])[0]
            if k in ("push", "pushc", "try"):
                ops.append(f"{k}:{nxt()}")
            elif k == "cap":
                ops.append(f"cap:{rng.choice([0, 1, 2, 3])}")
            else:
                ops.append(k)
        ths.append(" ".join(ops))
    return cap, ths


def program_lines(chk):
    rng = random.Random(chk.seed * 7919 + 1)
    lines = []
    t = chk.thorough
    for k, (cap, ths) in enumerate(CURATED):
        n = len(ths)
        bound = (3 if n == 2 else 2) + (1 if t else 0)
        lines.append(f"d{k} {cap} dfs {bound} 1 {400000 if t else 6000} {60 if t else 4} {chk.seed} | " + " | ".join(ths))
        lines.append(f"r{k} {cap} rand 0 2 {40000 if t else 1200} {30 if t else 3} {chk.seed} | " + " | ".join(ths))
    for k, (cap, ths) in enumerate(families()):
        lines.append(f"f{k} {cap} rand 0 1 {20000 if t else 700} {20 if t else 2} {chk.seed + k} | " + " | ".join(ths))
        lines.append(f"h{k} {cap} dfs {2 if t else 1} 0 {100000 if t else 1500} {30 if t else 2} {chk.seed} | " + " | ".join(ths))
    for k in range(400 if t else 40):
        cap, ths = random_prog(rng)
        lines.append(f"g{k} {cap} rand 0 2 {6000 if t else 600} {8 if t else 1.5} {chk.seed + k} | " + " | ".join(ths))
        if k < (200 if t else 16):
            lines.append(f"e{k} {cap} dfs 1 1 {6000 if t else 1000} {8 if t else 1.5} {chk.seed + k} | " + " | ".join(ths))
    return lines


def line_of(lines, oid):
    return next(x for x in lines if x.split()[0] == oid)


def confirm(binary, line, o):
    """re-run the schedule: the same outcome must show up again"""
    r = vf.run([binary, o["sched"]], line + "\n", timeout=120)
    got = [json.loads(x) for x in r.stdout.splitlines()]
    return any(g["h"] == o["h"] and g["st"] == o["st"] for g in got)


def run(chk, live):
    binary = vf.build("queue_h", ["queue_h.cpp", "vsched.cpp"], "sched", libs=())
    for p in ("P1", "P2", "P3"):
        chk.model_must_hold(vf.tlc("QueueImpl", "QueueImpl_" + p, workers=4), "QueueImpl " + p)
    lines = program_lines(chk)
    outs, sums = sched.explore(chk, binary, lines)
    good = []
    for o in outs:
        if o["race"] and not live:
            if confirm_race(binary, line_of(lines, o["id"]), o):
                chk.violation("race:" + o["msg"][:80], f"data race in {line_of(lines, o['id'])}: {o['msg']}",
                              {"program": line_of(lines, o["id"]), "schedule": o["sched"], "history": o["h"]})
        if o["st"] in ("done", "stuck"):
            good.append(o)
        elif o["st"] in ("aborted", "crashed", "exception", "hang", "left"):
            if (o["st"] == "hang") == live and confirm(binary, line_of(lines, o["id"]), o):
                chk.violation(o["st"] + ":" + o["id"], f"{o['st']}: {o['msg']} in {line_of(lines, o['id'])}",
                              {"program": line_of(lines, o["id"]), "schedule": o["sched"], "history": o["h"]})
    hs, idx = [], {}
    for o in good:
        k = json.dumps([o["cap"], o["h"], o["st"] == "stuck"])
        if k not in idx:
            idx[k] = o
            hs.append({"cap": o["cap"], "ev": o["h"], "stuck": o["st"] == "stuck"})
    objs = list(idx.values())
    bad_safe = sched.validate(chk, hs, "QueueTrace", "QueueTraceSafe", "linearizability")
    if live:
        ok = [i for i in range(len(hs)) if i not in set(bad_safe)]
        stuck = [i for i in ok if hs[i]["stuck"]]
        chk.cov["stuck_histories"] = len(stuck)
        bl = sched.validate(chk, [hs[i] for i in stuck], "QueueTrace", "QueueTraceLive", "stuck calls are disabled")
        bad = [stuck[i] for i in bl]
    else:
        bad = bad_safe
    chk.traces += len(hs)
    for o in objs[:2] + [o for o in objs if o["st"] == "stuck"][:2]:
        chk.sample({"program": line_of(lines, o["id"]), "outcome": o["st"], "history": o["h"]})
    for i in bad:
        o = objs[i]
        ln = line_of(lines, o["id"])
        if len(chk.violations) >= 20:
            break
        if not confirm(binary, ln, o) and not again(chk, binary, ln, live):
            chk.unconfirmed("a rejected history did not reproduce: " + ln)
            continue
        kind = "a call stays blocked although it could proceed" if live else "history is not a behaviour of a bounded FIFO queue"
        chk.violation("history:" + ln.split("|", 1)[1] + json.dumps(o["h"])[:200], f"{kind}: {ln} -> {o['h']}",
                      {"program": ln, "schedule": o["sched"], "history": o["h"], "status": o["st"]})
    chk.assumptions += ["sequentially consistent interleavings of synchronisation operations; data races are reported separately",
                        "at most 5 threads and 4 operations per thread per program"]


def again(chk, binary, ln, live):
    """undefined behaviour may give other values on a re-run: explore that program once more from scratch"""
    r = vf.run([binary], ln + "\n", timeout=300)
    outs = [o for o in map(json.loads, r.stdout.splitlines()) if "summary" not in o]
    if any(o["st"] in ("aborted", "crashed") for o in outs) and not live:
        return True
    hs = [{"cap": o["cap"], "ev": o["h"], "stuck": o["st"] == "stuck"} for o in outs if o["st"] in ("done", "stuck")]
    return bool(sched.validate(chk, hs, "QueueTrace", "QueueTraceLive" if live else "QueueTraceSafe", "confirmation"))


def confirm_race(binary, line, o):
    r = vf.run([binary, o["sched"]], line + "\n", timeout=120)
    return any(json.loads(x)["race"] for x in r.stdout.splitlines())


def sequential(chk, binary):
    """replay every sequential behaviour of the abstract queue (TLC enumerates them) on the real queue"""
    cfg = "QueueSeqDeep" if chk.thorough else "QueueSeq"
    r = vf.tlc("QueueSeq", cfg, workers=4)
    chk.add_tlc(r, "sequential behaviours")
    beh = r.printed("H")
    if not beh:
        raise vf.Error("no sequential behaviours")
    inp = "\n".join(f"{b[0]} " + " ".join(f"{o}:{a}" for o, a, _, _ in b[1]) for b in beh) + "\n"
    rr = vf.run([binary, "--seq"], inp, timeout=300, check=False)
    got = rr.stdout.splitlines() if rr else []
    for n, b in enumerate(beh):
        exp = " ".join(f"{r}/{s}" for _, _, r, s in b[1])
        g = got[n].strip() if n < len(got) else "(no output: the harness stopped)"
        if g != exp:
            chk.violation("seq:" + json.dumps(b), f"sequence {b} expected results {exp}, the queue gave {g}", {"behaviour": b, "got": g})
            if n >= len(got):
                break
    chk.traces += len(beh)
    chk.cov["sequential_behaviours_replayed"] = len(beh)
    chk.sample({"sequential": beh[len(beh) // 2]})
