"""Driver core: builds harnesses from /repo's working tree, runs jobs, judges
their reports, writes evidence."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = os.path.join(REPO, "src", "include")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
NCPU = min(8, os.cpu_count() or 8)
GB = 1 << 30


def log(*a):
    print(*a, flush=True)


class HarnessError(Exception):
    pass


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(os.path.relpath(p, "/").encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def tree_files(root):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in (".git", "_build", "build")]
        out += [os.path.join(d, f) for f in fs]
    return out


class Builder:
    """Compiles objects in parallel, keyed by the content of everything they
    can depend on, so a stale object is never reused."""

    def __init__(self, workdir):
        self.cache = os.path.join(BUILD, "cache")
        os.makedirs(self.cache, exist_ok=True)
        self.work = workdir
        self.src_key = file_hash(tree_files(INC))
        self.har_key = file_hash(tree_files(HARNESS))
        self.errors = {}
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.pending = {}
        self.compiled = 0

    def obj(self, cxx, flags, src, lib=True):
        cmd = [cxx] + flags + (["-I" + INC] if lib else []) + ["-c", os.path.join(HARNESS, src)]
        key = hashlib.sha256(json.dumps([cmd, self.src_key if lib else "", self.har_key]).encode()).hexdigest()[:32]
        out = os.path.join(self.cache, key + ".o")
        if key not in self.pending:
            self.pending[key] = self.pool.submit(self._compile, cmd, out)
        return self.pending[key], out

    def _compile(self, cmd, out):
        if os.path.exists(out):
            return None
        tmp = out + ".%d.%d.tmp" % (os.getpid(), time.monotonic_ns())
        try:
            p = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
        except subprocess.TimeoutExpired:
            return "timeout compiling"
        if p.returncode != 0:
            return p.stdout[-4000:] or "compiler failed"
        os.replace(tmp, out)
        self.compiled += 1
        return None


class Prog:
    """A program: list of (cxx, flags, src, uses_library) plus link flags."""

    def __init__(self, name, parts, cxx="g++", ldflags=(), fallback=None):
        self.name, self.parts, self.cxx, self.ldflags, self.fallback = name, parts, cxx, list(ldflags), fallback
        self.dropped = []
        self.path = None
        self.error = None

    def start(self, b):
        self.futs = [b.obj(*p) for p in self.parts]

    def link(self, b):
        objs = []
        groups = sum(p[2] == "inst.cpp" for p in self.parts)
        for (f, o), p in zip(self.futs, self.parts):
            e = f.result()
            if not e:
                objs.append(o)
            elif p[2] == "inst.cpp" and groups > 1:
                # one group of instantiations less; the others still decide
                groups -= 1
                self.dropped.append("%s %s: %s" % (self.name, p[1][-1], e))
            else:
                self.error = "%s %s: %s" % (self.name, p[2], e)
                return
        self.path = os.path.join(b.work, self.name)
        cmd = [self.cxx] + objs + self.ldflags + ["-o", self.path, "-pthread", "-ldl"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0:
            self.error = "%s link: %s" % (self.name, p.stdout[-3000:])
            self.path = None


class Job:
    def __init__(self, prog, args, env=None, timeout=300, san=False, name=None, retries_on_timeout=1, wrapper=(), mem=8):
        self.prog, self.args, self.env, self.timeout, self.san = prog, list(args), env or {}, timeout, san
        self.name = name or prog.name
        self.retries = retries_on_timeout
        self.wrapper = list(wrapper)
        self.mem = mem
        self.rc = None
        self.report = None
        self.err = ""
        self.out = ""
        self.hang = None
        self.skipped = False
        self.wall = 0

    def cmd(self):
        return self.wrapper + [self.prog.path] + self.args


def _limits(job):
    def f():
        os.setsid()
        if not job.san and job.mem:
            resource.setrlimit(resource.RLIMIT_AS, (job.mem * GB, job.mem * GB))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


POLL, IDLE_POLLS = 1.0, 45


class STOP:
    """Set once a violation is known: the remaining jobs are not worth waiting for."""
    at = None


def _stat(path):
    with open(path) as f:
        s = f.read()
    return s[s.rindex(")") + 2:].split()


def _session_state(sid):
    """(all threads of the session asleep?, total cpu ticks)"""
    cpu, asleep = 0, True
    try:
        for p in os.listdir("/proc"):
            if not p.isdigit():
                continue
            try:
                if int(_stat("/proc/%s/stat" % p)[3]) != sid:
                    continue
            except (OSError, ValueError):
                continue
            for t in os.listdir("/proc/%s/task" % p):
                s = _stat("/proc/%s/task/%s/stat" % (p, t))
                cpu += int(s[11]) + int(s[12]) + int(s[13]) + int(s[14])
                if s[0] not in "S":
                    asleep = False
    except (OSError, ValueError):
        return False, -1
    return asleep, cpu


def run_once(job, workdir, idx):
    base = os.path.join(workdir, "job%d" % idx)
    rep = base + ".json"
    if os.path.exists(rep):
        os.unlink(rep)
    args = job.cmd() + ["--out", rep]
    env = dict(os.environ)
    env.update(job.env)
    t0 = time.time()
    job.hang = None
    with open(os.devnull, "wb") as fo, open(base + ".err", "wb") as fe:
        p = subprocess.Popen(args, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, env=env, preexec_fn=_limits(job), cwd=workdir)
        # a hang is a process group whose threads are all asleep and stay so,
        # without using the processor, for IDLE_POLLS polls
        idle, last, poll = 0, -1, 0
        while True:
            try:
                p.wait(timeout=POLL)
                break
            except subprocess.TimeoutExpired:
                pass
            poll += 1
            asleep, cpu = _session_state(p.pid)
            idle = idle + 1 if asleep and cpu == last else 0
            last = cpu
            late = time.time() - t0 > job.timeout
            stop = STOP.at is not None and time.time() > STOP.at
            if idle >= IDLE_POLLS or late or stop:
                if p.poll() is None:
                    if idle >= IDLE_POLLS:
                        job.hang = "asleep"
                    elif late:
                        job.hang = "busy"
                    else:
                        job.skipped = True
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                p.wait()
                break
    job.wall = time.time() - t0
    job.rc = p.returncode
    with open(base + ".err", "rb") as f:
        f.seek(0, 2)
        n = f.tell()
        f.seek(max(0, n - 60000))
        job.err = f.read().decode(errors="replace")
    job.report = None
    if os.path.exists(rep):
        try:
            with open(rep, errors="replace") as f:
                job.report = json.load(f)
        except ValueError:
            pass


def run_job(job, workdir, idx):
    if STOP.at is not None:
        job.skipped = True
        return job
    run_once(job, workdir, idx)
    if job.san and "LeakSanitizer has encountered a fatal error" in job.err:
        # no ptrace here: run again without the leak pass
        job.env = dict(job.env, ASAN_OPTIONS=job.env.get("ASAN_OPTIONS", "") + ":detect_leaks=0")
        run_once(job, workdir, idx)
    tries = job.retries
    while job.hang == "asleep" and tries > 0 and STOP.at is None:
        tries -= 1
        first = job.hang
        run_once(job, workdir, idx)
        if job.hang and first != job.hang:
            job.hang = "busy"
    if not job.skipped and STOP.at is None:
        known = [rx for p, rx, _ in load_known() if p == job.args[0]]
        if any(not any(rx.search(x) for rx in known) for x in judge(job) or ()):
            STOP.at = time.time() + 40
    return job


SAN_RE = re.compile(r"(ERROR: (Address|Leak|Memory|Thread)Sanitizer|WARNING: (ThreadSanitizer|MemorySanitizer)|runtime error:|ERROR SUMMARY: [1-9]|Assertion '.*' failed)")


def san_summary(err):
    out = []
    for line in err.splitlines():
        if "SUMMARY:" in line or "runtime error:" in line or "ERROR: " in line and "Sanitizer" in line or "Assertion '" in line or "WARNING: ThreadSanitizer" in line:
            out.append(line.strip()[:300])
    return " | ".join(out[:4])


def judge(job):
    """list of violation texts, or None if the job gave no answer."""
    v = []
    if job.hang:
        if job.hang == "asleep":
            return ["[%s] hang: every thread asleep, no progress, in two runs: %s" % (job.name, " ".join(job.args))]
        return None
    if job.report:
        v += ["[%s] %s" % (job.name, x) for x in job.report.get("violations", [])]
    if job.rc == 0 and job.report and not v:
        return []
    if job.rc == 3 or (job.rc == 2 and not job.report):
        return None
    if job.rc == 99 and job.wrapper:  # memcheck: only what concerns memory contents counts
        m = re.findall(r"==\d+== (.*(?:uninitialised|Invalid (?:read|write|free)|overlap).*)", job.err)
        if m:
            where = re.findall(r"==\d+==    (?:at|by) .*\((?:\w+\.hpp):\d+\)", job.err)
            v.append("[%s] memcheck: %s %s" % (job.name, m[0], where[0] if where else ""))
        return v
    if job.san and SAN_RE.search(job.err):
        v.append("[%s] sanitizer: %s" % (job.name, san_summary(job.err)))
        return v
    if v:
        return v
    if job.rc is not None and job.rc != 0:
        tail = "; ".join(x.strip() for x in job.err.strip().splitlines()[-4:])[:500]
        if job.rc == -signal.SIGKILL:
            return None
        sig = signal.Signals(-job.rc).name if job.rc < 0 else "exit %d" % job.rc
        return ["[%s] the process died (%s): %s" % (job.name, sig, tail)]
    return None  # rc 0 but no report


def load_known():
    known, path = [], os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\w+) match=/(.*)/ (.*)", line.strip())
            if m:
                known.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return known


class Check:
    """Result accumulator of one check run."""

    def __init__(self, prop, tier, seed, level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "work-" + prop)
        os.makedirs(self.work, exist_ok=True)
        self.viol = []
        self.notes = []
        self.counts, self.maxv, self.distinct, self.samples = {}, {}, set(), []
        self.evals = 0
        self.per = {}
        self.extra = {}
        self.answered = 0
        self.builder = Builder(self.work)

    def build(self, progs):
        for p in progs:
            p.start(self.builder)
        for p in progs:
            p.link(self.builder)
        ok = [p for p in progs if p.path]
        for p in progs:
            if p.error and p.fallback:
                p.fallback.start(self.builder)
        for p in progs:
            if p.error and p.fallback:
                p.fallback.link(self.builder)
                if p.fallback.path:
                    self.notes.append("built as %s: %s" % (p.fallback.name, p.error))
                    p.path, p.error = p.fallback.path, None
        ok = [p for p in progs if p.path]
        for p in progs:
            for d in p.dropped:
                self.notes.append("not built: " + d)
                log("NOTE not built: " + d[:1500])
            if p.error:
                self.notes.append("not built: " + p.error)
                log("NOTE not built: " + p.error[:1500])
        if not ok:
            raise HarnessError("no program could be built")
        return ok

    def run(self, jobs, parallel=None):
        jobs = [j for j in jobs if j.prog.path]
        with cf.ThreadPoolExecutor(parallel or NCPU) as ex:
            fs = [ex.submit(run_job, j, self.work, i) for i, j in enumerate(jobs)]
            for f in fs:
                f.result()
        for j in jobs:
            if not j.skipped:
                self.absorb(j)
        return [j for j in jobs if not j.skipped]

    def absorb(self, j):
        v = judge(j)
        if v is None:
            self.notes.append("no answer from %s: rc=%s hang=%s %s" % (j.name, j.rc, j.hang, j.err[-600:]))
            log("NOTE no answer from %s (rc=%s hang=%s)" % (j.name, j.rc, j.hang))
            return
        self.answered += 1
        for x in v:
            self.viol.append((x, j))
        r = j.report
        if r:
            self.evals += r.get("evaluations", 0)
            pc = self.per.setdefault(j.name, {"evaluations": 0, "violations": 0, "wall_s": 0})
            pc["evaluations"] += r.get("evaluations", 0)
            pc["violations"] += len(v)
            pc["wall_s"] = round(pc["wall_s"] + j.wall, 2)
            for k, n in r.get("count", {}).items():
                self.counts[k] = self.counts.get(k, 0) + n
            for k, n in r.get("max", {}).items():
                self.maxv[k] = max(self.maxv.get(k, n), n)
            self.distinct.update(r.get("distinct", []))
            if len(self.samples) < 6:
                self.samples += ["%s: %s" % (j.name, s) for s in r.get("samples", [])[:2]]

    def violation(self, text, job=None):
        self.viol.append((text, job))

    def finish(self, rule, assumptions, min_evals=1):
        known = load_known()
        new, seen = [], set()
        for text, job in self.viol:
            k = next((w for p, rx, w in known if p == self.prop and rx.search(text)), None)
            if k is None:
                new.append((text, job))
            elif k not in seen:
                seen.add(k)
                log("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        cov = {
            "evaluations": self.evals,
            "distinct_nontrivial": len(self.distinct),
            "rule": rule,
            "samples": self.samples[:6],
            "observed": self.counts,
            "per_job": self.per,
            "repo_tree": self.builder.src_key[:16],
        }
        if self.maxv:
            cov["extremes"] = self.maxv
        cov.update(self.extra)
        if self.notes:
            cov["notes"] = self.notes[:20]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if new:
            rd = os.path.join(EVID, "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s.txt" % self.prop)
            with open(path, "w") as f:
                f.write("property %s seed %d tier %s\n" % (self.prop, self.seed, self.tier))
                done = set()
                for text, job in new[:20]:
                    f.write("\n== %s\n" % text)
                    if job is not None:
                        f.write("replay: %s %s (program built by: python3 run.py %s)\n" % (" ".join("%s=%s" % kv for kv in job.env.items()), " ".join(job.cmd()), self.prop))
                        if job.err and job not in done:
                            done.add(job)
                            f.write(job.err[:20000] + "\n")
            for text, _ in new[:5]:
                log("  " + text[:600])
            log("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        if self.answered == 0 or self.evals < min_evals:
            log("INCONCLUSIVE property=%s: %d evaluations, %d jobs answered" % (self.prop, self.evals, self.answered))
            return 2
        log("HELD property=%s: %d evaluations, %d distinct, %.1f s" % (self.prop, self.evals, len(self.distinct), time.time() - self.t0))
        return 0
