"""Common part of the checks that explore schedules of the real code and validate the recorded histories with TLC."""
import json
import os
import random

import vf

BAD = ("aborted", "crashed", "exception", "hang", "left")


def explore(chk, binary, lines):
    """run the program lines over all cores; returns (outcomes, summaries)"""
    order = list(lines)
    random.Random(chk.seed).shuffle(order)
    chunks = [order[i::vf.NCPU] for i in range(vf.NCPU)]

    def one(arg):
        i, c = arg
        if not c:
            return []
        r = vf.run([binary], "\n".join(c) + "\n", timeout=880, env={"VS_CPU": str(i)})
        return [json.loads(x) for x in r.stdout.splitlines()]
    outs, sums = [], []
    for part in vf.pmap(one, list(enumerate(chunks))):
        for o in part:
            (sums if "summary" in o else outs).append(o)
    chk.cov["schedules_executed"] = chk.cov.get("schedules_executed", 0) + sum(s["execs"] for s in sums)
    chk.cov["programs"] = chk.cov.get("programs", 0) + len(sums)
    chk.cov["programs_exhausted_within_preemption_bound"] = chk.cov.get("programs_exhausted_within_preemption_bound", 0) + sum(s["exhausted"] for s in sums)
    chk.cov["runs_cut_by_step_limit"] = chk.cov.get("runs_cut_by_step_limit", 0) + sum(o["st"] == "limit" for o in outs)
    return outs, sums


def validate(chk, hists, module, cfg, what, batch=4000):
    """hists: list of history dicts; returns the indices TLC rejects"""
    if not hists:
        return []
    tmp = vf.scratch()
    parts = [(b, hists[b:b + batch]) for b in range(0, len(hists), batch)]

    def one(p):
        b, hs = p
        f = os.path.join(tmp, f"t{b}.json")
        with open(f, "w") as fh:
            json.dump(hs, fh)
        r = vf.tlc(module, cfg, env={"TRACE_FILE": f}, workers=1)
        os.unlink(f)
        return b, r
    bad = []
    for b, r in vf.pmap(one, parts, 6):
        chk.add_tlc(r, f"{what} batch@{b}")
        rej = r.printed("REJECTED")
        if len(rej) != 1:
            raise vf.Error("trace validation gave no verdict:\n" + r.out[-3000:])
        bad += [b + k - 1 for k in rej[0]]
    os.rmdir(tmp)
    return bad


def run(chk, binary, lines, module, cfg, hist=lambda o: {"cap": o["cap"], "ev": o["h"], "stuck": o["st"] == "stuck"},
        races=True, kind="history is not a behaviour of the specification", ignore=(), ends=("done", "stuck")):
    """explore, validate, confirm"""
    byid = {x.split()[0]: x for x in lines}
    outs, _ = explore(chk, binary, lines)
    good, suspects = [], []
    for o in outs:
        if o["race"] and races:
            suspects.append((o, "data race: " + o["msg"]))
        elif o["st"] in BAD and o["st"] not in ignore:
            suspects.append((o, f"{o['st']}: {o['msg']}"))
        if o["st"] in ends:
            good.append(o)
    uniq = {}
    for o in good:
        uniq.setdefault(json.dumps(hist(o)), o)
    hs = [json.loads(k) for k in uniq]
    objs = list(uniq.values())
    for i in validate(chk, hs, module, cfg, "histories"):
        suspects.append((objs[i], ("stuck: a call stays blocked although it could proceed; " if objs[i]["st"] == "stuck" else "does not end: " if objs[i]["st"] == "limit" else "") + kind))
    chk.traces += len(hs)
    chk.cov["stuck_histories"] = chk.cov.get("stuck_histories", 0) + sum(o["st"] == "stuck" for o in objs)
    for o in objs[:2] + [o for o in objs if o["st"] == "stuck"][:1]:
        chk.sample({"program": byid[o["id"]], "outcome": o["st"], "history": o["h"]})
    for o, why in suspects[:400]:
        if len(chk.violations) >= 12:
            break
        ln = byid[o["id"]]
        if not (reproduces(binary, ln, o) or again(chk, binary, ln, module, cfg, hist, races, ends)):
            chk.unconfirmed("a suspected violation did not reproduce: " + ln + " " + why)
            continue
        chk.violation(ln.split("|", 1)[1] + " " + why[:60], f"{why} :: {ln} -> {json.dumps(o['h'])[:900]}",
                      {"program": ln, "schedule": o["sched"], "history": o["h"], "status": o["st"], "why": why})
    chk.assumptions += ["interleavings of synchronisation operations are sequentially consistent; data races are detected by happens-before"]


def reproduces(binary, line, o):
    r = vf.run([binary, o["sched"]], line + "\n", timeout=120)
    got = [json.loads(x) for x in r.stdout.splitlines()]
    return any(g["h"] == o["h"] and g["st"] == o["st"] and g["race"] == o["race"] for g in got)


def again(chk, binary, ln, module, cfg, hist, races, ends):
    """undefined behaviour may give other values on a re-run: explore that program once more from scratch"""
    r = vf.run([binary], ln + "\n", timeout=300)
    outs = [o for o in map(json.loads, r.stdout.splitlines()) if "summary" not in o]
    if any(o["st"] in BAD or (races and o["race"]) for o in outs):
        return True
    hs = [hist(o) for o in outs if o["st"] in ends]
    return bool(validate(chk, hs, module, cfg, "confirmation"))
