"""Replaying cases enumerated by TLC into a harness that answers one line per input line."""
import os
import subprocess
import tempfile
import time

import vf

ENV = {"ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=4096",
       "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1"}


def run_lines(binary, lines, args=(), env=None, cwd=None, per_line=60):
    """One answer per line. A line on which the process dies, or gives no answer for per_line seconds, gets 'DIED ...'
    (and the process is restarted after it)."""
    out = []
    deaths = hangs = 0
    tmp = vf._mk(os.path.join(vf.BUILD, "tmp"))
    while len(out) < len(lines):
        if deaths > 40 or hangs > 1:
            out += ["SKIPPED"] * (len(lines) - len(out))
            break
        rest = lines[len(out):]
        with tempfile.TemporaryFile("w+", dir=tmp, errors="replace") as ef, tempfile.TemporaryFile("w+", dir=tmp, errors="replace") as of, \
                tempfile.TemporaryFile("w+", dir=tmp) as inf:
            inf.write("\n".join(rest) + "\n")
            inf.flush()
            inf.seek(0)
            p = subprocess.Popen([binary, *args], stdin=inf, stdout=of, stderr=ef, env={**os.environ, **ENV, **(env or {})}, cwd=cwd)
            size, since = -1, time.time()
            while True:
                try:
                    rc = p.wait(.05 if size < 0 else .5)
                    break
                except subprocess.TimeoutExpired:
                    n = os.fstat(of.fileno()).st_size
                    if n != size:
                        size, since = n, time.time()
                    elif time.time() - since > per_line:
                        p.kill()
                        p.wait()
                        rc = "timeout"
                        hangs += 1
                        break
            ef.seek(0)
            err = ef.read()
            of.seek(0)
            so = of.read()
        got = so.split("\n")[:-1]          # complete lines only
        got = got[:len(rest)]
        out += got
        if len(got) < len(rest):
            deaths += 1
            why = [x for x in err.splitlines() if "ERROR" in x or "FAILFAST" in x or "Assertion" in x or "runtime error" in x or "what()" in x]
            out.append(f"DIED rc={rc} " + (why[0] if why else err[-200:].replace("\n", " "))[:300])
        elif rc != 0:
            # died after answering everything: leak or a crash on exit
            why = [x for x in err.splitlines() if "ERROR" in x or "SUMMARY" in x]
            return out, f"exit {rc}: " + " ".join(why)[:400]
    return out, None


def run_parallel(binary, lines, n=None, **kw):
    n = n or vf.NCPU
    size = max(1, (len(lines) + n - 1) // n)
    parts = [lines[i:i + size] for i in range(0, len(lines), size)]
    out, end = [], None
    for o, e in vf.pmap(lambda p: run_lines(binary, p, **kw), parts, n):
        out += o
        end = end or e
    return out, end


def compare(chk, cases, answers, end=None, label="", tail_key="process end"):
    """cases: (line, predicate or expected string, description); reports violations"""
    n = 0
    for (line, exp, desc), got in zip(cases, answers):
        if got == "SKIPPED":
            continue
        ok = exp(got) if callable(exp) else got == exp
        if ok:
            n += 1
            continue
        chk.violation(f"{label}{line}"[:200], f"{desc or line}: expected {exp if not callable(exp) else 'a value the specification allows'}, got {got[:400]}",
                      {"input": line, "expected": None if callable(exp) else exp, "got": got, "what": desc})
    if end:
        chk.violation(f"{label}{tail_key}", f"the process ended badly after answering: {end}", {"end": end, "label": label})
    chk.traces += n
    chk.cov["cases_replayed"] = chk.cov.get("cases_replayed", 0) + len(cases)
