"""Shared machinery of the checks: building /repo's sources, running TLC, evidence, violations."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
SHIM = os.path.join(VERIF, "shim")
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
JAR = "/opt/veriftools/tla/tla2tools.jar"
NCPU = len(os.sched_getaffinity(0))


class Error(Exception):
    """An error of the machinery (never a verdict)."""


# ----------------------------------------------------------------------------------------------- build
def _hash_files(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def _tree(*dirs, exts=(".hpp", ".h", ".cpp", ".c", ".in")):
    out = []
    for d in dirs:
        for r, _, fs in os.walk(d):
            out += [os.path.join(r, f) for f in fs if f.endswith(exts)]
    return out


# parts of the library: source names that are left out (anything else, new files included, is compiled)
PARTS = {True: (), "meta": ("v1_", "v2_", "storage_hasher", "storage_verifier", "chunk_"), "pipe": ("metafile", "magnet", "announce")}


def repo_sources(part=True):
    src = []
    for r, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if not f.endswith(".cpp"):
                continue
            p = os.path.join(r, f)
            if "/backends/" in p and f not in ("openssl.cpp", "isal.cpp"):
                continue
            if f.startswith(PARTS[part]) if PARTS[part] else False:
                continue
            src.append(p)
    return sorted(src)


BASE = ["-std=c++20", "-g1", "-w", "-D_GLIBCXX_ASSERTIONS", "-DDOTTORRENT_USE_OPENSSL", "-DFMT_HEADER_ONLY"]
PRELUDE = ["-include", "prelude.hpp"]
# flavours of the library build
FLAVOURS = {
    "plain": ["-O1"],
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
    "sched": ["-O1", "-fsanitize=thread"],           # instrumented; linked with vsched, not libtsan
}
CXX = "g++"


def _compile(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    return r.returncode, r.stderr, cmd


def _lock(path):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    f = open(path, "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build(name, sources, flavour="plain", lib=False, prelude=None, extra=(), libs=("-lcrypto",), repo_src=()):
    """Compile harness `sources` (names under harness/) against /repo's current tree. Returns the binary's path.
    lib=True links the whole library (all of /repo/src), lib="meta" or "pipe" a part of it. Results are cached by content."""
    prelude = bool(lib) if prelude is None else prelude
    deps = _tree(os.path.join(REPO, "include"), HARNESS, SHIM) + (repo_sources(lib) if lib else []) + [os.path.join(REPO, x) for x in repo_src]
    flags = BASE + list(FLAVOURS[flavour]) + list(extra)
    inc = ["-I" + HARNESS, "-I" + SHIM, "-I" + os.path.join(REPO, "include")]
    key = _hash_files(deps, json.dumps([name, sources, flavour, lib, prelude, list(extra), list(libs), list(repo_src), REPO]))
    out = os.path.join(BUILD, "bin", f"{name}-{flavour}-{key}")
    lk = _lock(os.path.join(BUILD, "lock", f"{name}-{flavour}"))
    try:
        if os.path.exists(out):
            return out
        t0 = time.time()
        work = tempfile.mkdtemp(prefix="vb-", dir=_mk(os.path.join(BUILD, "tmp")))
        jobs, objs = [], []
        for s in list(sources) + [os.path.join(REPO, x) for x in repo_src]:
            p = os.path.join(HARNESS, s)
            o = os.path.join(work, os.path.basename(s) + ".o")
            if s == "vsched.cpp":
                jobs.append([CXX, "-std=c++20", "-O2", "-g1", "-w", "-fno-threadsafe-statics", "-c", p, "-o", o])
            else:
                jobs.append([CXX] + flags + inc + (PRELUDE if prelude else []) + ["-c", p, "-o", o])
            objs.append(o)
        libobjs = []
        if lib:
            libdir = os.path.join(BUILD, "lib", flavour + "-" + _hash_files(
                _tree(os.path.join(REPO, "include"), SHIM) + repo_sources(lib), json.dumps([flags, REPO, lib])))
            llk = _lock(os.path.join(BUILD, "lock", f"lib-{lib}-{flavour}"))
            done = os.path.join(libdir, "ok")
            if not os.path.exists(done):
                os.makedirs(libdir, exist_ok=True)
                srcs = repo_sources(lib)
                # a few sources per compiler run save much of the time; one by one if they do not go together
                groups = [srcs[i::max(2, NCPU)] for i in range(min(len(srcs), max(2, NCPU)))]
                units = []
                for i, g in enumerate(groups):
                    u = os.path.join(libdir, f"unit{i}.cpp")
                    with open(u, "w") as f:
                        f.writelines(f'#include "{s}"\n' for s in g)
                    units.append(u)
                try:
                    _run_jobs([[CXX] + flags + inc + PRELUDE + ["-c", u, "-o", u + ".o"] for u in units])
                except Error:
                    shutil.rmtree(libdir)
                    os.makedirs(libdir)
                    _run_jobs([[CXX] + flags + inc + PRELUDE + ["-c", s, "-o", os.path.join(libdir, os.path.relpath(s, REPO).replace("/", "_") + ".o")] for s in srcs])
                open(done, "w").close()
            libobjs = sorted(os.path.join(libdir, x) for x in os.listdir(libdir) if x.endswith(".o"))
            llk.close()
        _run_jobs(jobs)
        link = [CXX] + [f for f in FLAVOURS[flavour] if flavour != "sched"] + objs + libobjs + ["-o", out + ".tmp"] + list(libs) + ["-ldl", "-lpthread"]
        os.makedirs(os.path.dirname(out), exist_ok=True)
        rc, err, cmd = _compile(link)
        if rc:
            raise Error("link failed: " + " ".join(cmd) + "\n" + err[-4000:])
        os.rename(out + ".tmp", out)
        shutil.rmtree(work, ignore_errors=True)
        log(f"built {name} ({flavour}) in {time.time() - t0:.1f}s")
        _prune()
        return out
    finally:
        lk.close()


def _run_jobs(jobs):
    with cf.ThreadPoolExecutor(max(2, NCPU)) as ex:
        for rc, err, cmd in ex.map(_compile, jobs):
            if rc:
                raise Error("compile failed: " + " ".join(cmd) + "\n" + err[-4000:])


def _prune():
    """keep the build directory small"""
    for d, keep in (("bin", 60), ("lib", 8)):
        p = os.path.join(BUILD, d)
        if not os.path.isdir(p):
            continue
        es = sorted((os.path.join(p, e) for e in os.listdir(p)), key=os.path.getmtime, reverse=True)
        for e in es[keep:]:
            if time.time() - os.path.getmtime(e) < 1800:
                continue
            shutil.rmtree(e, ignore_errors=True) if os.path.isdir(e) else os.unlink(e)


def _mk(d):
    os.makedirs(d, exist_ok=True)
    return d


def scratch():
    return tempfile.mkdtemp(prefix="vs-", dir=_mk(os.path.join(BUILD, "tmp")))


# ----------------------------------------------------------------------------------------------- TLC
class TLCResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = [x for ln in out.splitlines() if "states generated" in ln and not ln.startswith('"')
             for x in re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", ln)]
        self.transitions, self.states = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        self.ok = rc == 0 and "No error has been found" in out
        self.violated = re.findall(r"(?:Invariant|Temporal properties were|Action property|Property|Deadlock|Postcondition)[^\n]*", out) if not self.ok else []

    def printed(self, tag):
        """values printed with PrintT("tag " \\o ToJson(x))"""
        pre = f'"{tag} '
        return [json.loads(json.loads(ln)[len(tag) + 1:]) for ln in self.out.splitlines() if ln.startswith(pre)]


def tlc(module, cfg=None, env=None, workers="auto", timeout=850, args=(), mem="4g", cwd=None):
    """Run TLC on spec/<module>.tla with spec/<cfg>; returns TLCResult. Raises Error if TLC itself broke."""
    meta = scratch()
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{mem}", "-Xss64m", "-Djava.io.tmpdir=" + meta,
           "-DTLA-Library=" + SPEC, "-cp", JAR + ":/opt/veriftools/tla/CommunityModules-deps.jar",
           "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), "-config", (cfg or module) + ".cfg"]
    cmd += list(args) + [module + ".tla"]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=cwd or SPEC, timeout=timeout, env={**os.environ, **(env or {})})
    except subprocess.TimeoutExpired:
        raise Error(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res = TLCResult(r.returncode, r.stdout + r.stderr, time.time() - t0)
    # 0 ok; 10-13: assumption/deadlock/safety/liveness violations; anything else is an error of the tool or spec
    if r.returncode not in (0, 10, 11, 12, 13):
        raise Error(f"TLC failed ({r.returncode}) on {module}/{cfg}:\n" + res.out[-6000:])
    return res


def run(cmd, inp=None, timeout=600, env=None, cwd=None, check=True):
    try:
        r = subprocess.run(cmd, input=inp, capture_output=True, text=True, errors="replace", timeout=timeout,
                           env={**os.environ, **(env or {})}, cwd=cwd)
    except subprocess.TimeoutExpired:
        if check:
            raise Error("timeout: " + " ".join(map(str, cmd))[:300])
        return None
    if check and r.returncode != 0:
        raise Error(f"{cmd[0]} exited {r.returncode}: {r.stderr[-3000:]}")
    return r


def pmap(fn, items, n=None):
    with cf.ThreadPoolExecutor(n or NCPU) as ex:
        return list(ex.map(fn, items))


def log(*a):
    print("[vf]", *a, file=sys.stderr, flush=True)


# ----------------------------------------------------------------------------------------------- verdicts
class Check:
    """One run of the check of one property."""

    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.assumptions = [], []
        self.cov = {}
        self.violations = []
        self.known = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def add_tlc(self, r, what):
        self.states += r.states
        self.transitions += r.transitions
        self.cov.setdefault("tlc_runs", []).append({"what": what, "states": r.states, "transitions": r.transitions, "wall_s": round(r.wall, 1)})

    def model_must_hold(self, r, what):
        """model checking of the specification itself: failure is an error of the spec, not of the code"""
        self.add_tlc(r, what)
        if not r.ok:
            raise Error(f"specification {what} does not satisfy its own properties:\n" + r.out[-5000:])

    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, key, detail, replay):
        """key identifies the failing input/history (for the known-findings file)"""
        for v in self.violations:
            if v["key"] == key:
                return
        self.violations.append({"key": key, "detail": detail, "replay": replay})

    def unconfirmed(self, what):
        """something suspicious that does not happen again in the same circumstances is not reported as a violation"""
        log("not confirmed: " + what[:600])
        self.cov.setdefault("unconfirmed_suspicions", []).append(what[:600])

    def finish(self):
        kf = load_known(self.pid)
        os.makedirs(EVID, exist_ok=True)
        real = []
        for v in self.violations:
            k = next((k for k in kf if re.fullmatch(k["match"], v["key"])), None)
            if k:
                if k["match"] not in self.known:
                    self.known.append(k["match"])
                    print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
            else:
                real.append(v)
        for i, v in enumerate(real[:5]):
            d = _mk(os.path.join(EVID, "replay"))
            p = os.path.join(d, f"{self.pid}-{i}.json")
            with open(p, "w") as f:
                json.dump(v, f, indent=1, default=str)
            print(f"VIOLATION property={self.pid} replay={p}")
            print("  " + str(v["detail"])[:1500])
        if len(real) > 5:
            print(f"  ... and {len(real) - 5} more")
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["(none)"], **self.cov}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(real)}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print(f"{self.pid} {self.tier}: states={self.states} transitions={self.transitions} traces={self.traces} "
              f"violations={len(real)} wall={ev['wall_s']}s")
        return 1 if real else 0


def load_known(pid):
    """known-findings.txt: `known: property=<id> match=<regex over violation keys> :: <what fails>` lines (fixed: lines suppress nothing)"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) match=(\S+) :: (.*)", ln)
            if m and m.group(1) == pid:
                out.append({"match": m.group(2), "what": m.group(3).strip()})
    return out
