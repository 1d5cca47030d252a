"""Shared machinery of all checks: building the checker from /repo's current
tree, running it under observation, classifying what was observed, recording
violations and evidence."""
import concurrent.futures as cf
import fnmatch
import hashlib
import json
import os
import pickle
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ETHOS_REPO", "/repo")
NPROC = os.cpu_count() or 4

WARN = "-w"
VARIANTS = {
    # deep instrumentation: address + undefined-behaviour sanitizers and the
    # project's own assertions, every report fatal
    "san": ["-O1", "-g1", "-fno-omit-frame-pointer",
            "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
            "-D_GLIBCXX_ASSERTIONS", "-DEO_ASSERTIONS"],
    # assertions and tracing, as the project's debug build (no optimisation
    # would be too slow); library assertions
    "dbg": ["-O1", "-D_GLIBCXX_ASSERTIONS", "-DEO_ASSERTIONS", "-DEO_TRACING"],
    # as released
    "rel": ["-O2", "-DNDEBUG"],
    # another compiler (another evaluation order), uninitialised variables filled
    "pat": ["-O2", "-DNDEBUG", "-ftrivial-auto-var-init=pattern", "-Wno-everything"],
}
COMPILER = {"pat": shutil.which("clang++") or "g++"}


class Hang(Exception):
    """A run did not finish within its time limit, twice (already reported)."""


class HarnessError(Exception):
    pass


def _sources():
    src = os.path.join(REPO, "src")
    out = []
    for root, dirs, files in os.walk(src):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".cpp"):
                out.append(os.path.join(root, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    src = os.path.join(REPO, "src")
    for root, dirs, files in os.walk(src):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode())
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:16]


def build(variants, extra_main=None):
    """Build the requested variants of the checker from /repo/src; returns
    {variant: path}. Results are cached under /verif/build by content."""
    th = tree_hash()
    top = os.path.join(VERIF, "build")
    os.makedirs(top, exist_ok=True)
    # drop builds of other trees
    for d in os.listdir(top):
        if d != th:
            shutil.rmtree(os.path.join(top, d), ignore_errors=True)
    res, jobs = {}, []
    for v in variants:
        d = os.path.join(top, th, v)
        exe = os.path.join(d, "ethos")
        res[v] = exe
        if os.path.exists(exe):
            continue
        os.makedirs(d, exist_ok=True)
        for s in _sources():
            o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "_") + ".o")
            jobs.append((v, s, o))
    # biggest translation units first
    jobs.sort(key=lambda j: -os.path.getsize(j[1]))

    def comp(j):
        v, s, o = j
        cmd = [COMPILER.get(v, "g++"), "-std=gnu++17", WARN] + VARIANTS[v] + \
            ["-I" + os.path.join(REPO, "src"), "-c", s, "-o", o]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise HarnessError("compilation failed: %s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
        return j

    if jobs:
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for _ in ex.map(comp, jobs):
                pass
    for v in variants:
        exe = res[v]
        if os.path.exists(exe):
            continue
        d = os.path.dirname(exe)
        objs = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".o"))
        flags = [f for f in VARIANTS[v] if f.startswith("-fsanitize")]
        cmd = [COMPILER.get(v, "g++")] + flags + objs + ["-lgmpxx", "-lgmp", "-o", exe + ".tmp"]
        # the two that run most often start faster without shared libraries
        r = subprocess.run(cmd, capture_output=True, text=True)
        if v in ("rel", "dbg") and r.returncode == 0:
            shutil.copy(exe + ".tmp", exe + ".dyn")   # for valgrind
            r2 = subprocess.run(cmd + ["-static"], capture_output=True, text=True)
            if r2.returncode != 0:
                shutil.copy(exe + ".dyn", exe + ".tmp")
        if r.returncode != 0:
            raise HarnessError("link failed: %s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
        os.rename(exe + ".tmp", exe)
        for o in objs:
            os.unlink(o)
    return res


SAN_ENV = {
    # ExprValue objects are released with free() (see DESIGN.md), so the
    # new/free pairing and leaks are not judged
    "ASAN_OPTIONS": "detect_leaks=0:alloc_dealloc_mismatch=0:abort_on_error=0:exitcode=99:"
                    "handle_abort=0:allocator_may_return_null=0:symbolize=1:"
                    "detect_stack_use_after_return=0:max_allocation_size_mb=4096:hard_rss_limit_mb=2500",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
}

CRASH_RE = re.compile(
    r"AddressSanitizer|runtime error:|UndefinedBehavior|Check failure|Assertion|"
    r"terminate called|LeakSanitizer|unreachable code|Unhandled(?! attribute)|what\(\):")


class Result:
    """What was observed of one execution."""
    __slots__ = ("rc", "out", "err", "kind", "variant", "args")

    def __init__(self, rc, out, err, variant, args):
        # parameters are listed in the order of their addresses there
        err = re.sub(r"(?m)^  Context \[.*\]$", "  Context [...]", err)
        self.rc, self.out, self.err, self.variant, self.args = rc, out, err, variant, args
        txt = err + out
        if rc is None:
            self.kind = "timeout"
        elif rc == 0:
            last = out.rstrip().rsplit("\n", 1)[-1].strip() if out.strip() else ""
            if last == "correct":
                self.kind = "correct"
            elif last == "incomplete":
                self.kind = "incomplete"
            else:
                self.kind = "silent0"
        elif CRASH_RE.search(txt):
            self.kind = "crash"
        elif rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL, -signal.SIGKILL):
            self.kind = "crash"
        elif "Error:" in err or "Fatal failure" in err or rc == 1:
            self.kind = "reject"
        else:
            self.kind = "crash"

    @property
    def accepted(self):
        return self.kind in ("correct", "incomplete")

    def error(self):
        """The checker's error message (without the C++ location line)."""
        m = re.search(r"Error: (.*)", self.err, re.S)
        return (m.group(1) if m else self.err).strip()

    def pos(self):
        m = re.search(r"Error: (.*?):(\d+)\.(\d+): ", self.err)
        return (m.group(1), int(m.group(2)), int(m.group(3))) if m else None

    def brief(self):
        e = self.error().replace("\n", " | ")
        return "kind=%s rc=%s out=%r err=%s" % (self.kind, self.rc, self.out[-200:], e[:400])


class Check:
    def __init__(self, prop, tier, seed, replay_only=False):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random("%s-%s" % (prop, seed))
        self.hung = False
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.counts = {}
        self.samples = []
        self.violations = []
        self.known_hits = set()
        self.inconclusive = 0
        self.rule = ""
        self.assumptions = []
        self.known = load_known(prop)
        shm = "/dev/shm" if os.access("/dev/shm", os.W_OK | os.X_OK) else None
        self.tmp = tempfile.mkdtemp(prefix="ethos_verif_%s_" % prop, dir=shm)
        self.exes = {}
        self.keys = set()
        self.ndir = 0
        self.lock = threading.RLock()
        self.deferred = False
        self.pending = []

    # ---------------------------------------------------------------- build
    def need(self, *variants):
        miss = [v for v in variants if v not in self.exes]
        if miss:
            self.exes.update(build(sorted(set(list(self.exes) + miss))))

    # ------------------------------------------------------------------ run
    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def workdir(self):
        with self.lock:
            self.ndir += 1
            d = os.path.join(self.tmp, "w%d_%d" % (os.getpid(), self.ndir))
        os.makedirs(d)
        return d

    def command(self, variant):
        """The program, with the limits it has to run under."""
        if variant == "san":
            # address sanitizer reserves terabytes of address space
            return ["prlimit", "--fsize=%d" % (64 << 20), "--core=0", "--as=unlimited", self.exes[variant]]
        if self.deferred:
            return [self.exes[variant]]    # a worker, which has them
        return ["prlimit", "--fsize=%d" % (64 << 20), "--core=0", "--as=%d" % (3 << 30), self.exes[variant]]

    def exec(self, variant, args, cwd, stdin=None, timeout=40, env=None):
        """Run the checker. Output goes to unlinked files of bounded size, and
        memory is bounded, so that a run that gets out of hand is just ended."""
        e = dict(os.environ)
        e.update(SAN_ENV)
        e["LC_ALL"] = "C"
        if env:
            e.update(env)
        cmd = self.command(variant) + list(args)
        for attempt in (1, 2):
            with tempfile.TemporaryFile(dir=self.tmp) as fo, tempfile.TemporaryFile(dir=self.tmp) as fe:
                try:
                    p = subprocess.run(cmd, cwd=cwd, input=stdin if stdin is not None else b"", stdout=fo, stderr=fe,
                                       timeout=timeout * attempt, env=e)
                except subprocess.TimeoutExpired:
                    continue
                fo.seek(0)
                fe.seek(0)
                return Result(p.returncode, fo.read().decode("latin-1"), fe.read().decode("latin-1"), variant, list(args))
        return Result(None, "", "timeout", variant, list(args))

    def run(self, files, main=None, args=(), variant="dbg", stdin=None, timeout=40, keep=False):
        """Write files (name -> str/bytes) in a fresh directory and run the
        checker there on `main` (default: the only/first file). The inputs of
        the checks take milliseconds; one that does not finish in 40 and then
        in 80 seconds is reported as a hang."""
        d = self.workdir()
        try:
            for name, text in files.items():
                p = os.path.join(d, name)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(text if isinstance(text, bytes) else text.encode("utf-8"))
            a = list(args)
            if stdin is None:
                if main is None:
                    main = next(iter(files))
                if main:
                    a.append(main)
            else:
                stdin = stdin if isinstance(stdin, bytes) else stdin.encode("utf-8")
            res = self.exec(variant, a, d, stdin=stdin, timeout=timeout)
            if res.kind == "timeout":
                self.violation("hang", "the checker did not finish within %d seconds (twice) on an input that takes milliseconds" % timeout,
                               files, args=args, main=main, stdin=stdin, expected="an answer", observed="timeout")
                raise Hang()
            return res
        finally:
            if not keep:
                shutil.rmtree(d, ignore_errors=True)

    def pmap(self, fn, items, workers=None):
        """Run fn over items in threads, in order; stop early when there are
        plenty of violations."""
        items = list(items)
        with cf.ThreadPoolExecutor(workers or NPROC) as ex:
            futs = [ex.submit(self._guard, fn, it) for it in items]
            return [f.result() for f in futs]

    def ppmap(self, fn, items, workers=None):
        """Run fn over items in forked worker processes (each a copy of this
        Check); what they recorded is merged in item order."""
        if self.hung:
            return      # each further run that hangs would take minutes
        items = list(items)
        n = min(workers or NPROC, max(1, len(items)))
        pipes = []
        sys.stdout.flush()
        for w in range(n):
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(rd)
                    self.deferred = True
                    # limits of the runs of this worker
                    for what, soft in ((resource.RLIMIT_FSIZE, 64 << 20), (resource.RLIMIT_CORE, 0), (resource.RLIMIT_AS, 3 << 30)):
                        resource.setrlimit(what, (soft, resource.getrlimit(what)[1]))
                    out = []
                    nviol = 0
                    for k in range(w, len(items), n):
                        self.evals, self.distinct, self.counts, self.samples = 0, set(), {}, []
                        self.inconclusive, self.pending = 0, []
                        if nviol < 8:
                            try:
                                fn(items[k])
                            except Hang:
                                nviol += 8
                            except Exception:
                                import traceback
                                self.pending.append(("error", traceback.format_exc()))
                        nviol += len(self.pending)
                        out.append((k, self.evals, self.distinct, self.counts, self.samples[:2], self.inconclusive,
                                    self.pending))
                    with os.fdopen(wr, "wb") as f:
                        pickle.dump(out, f)
                except BaseException:
                    code = 1
                finally:
                    os._exit(code)
            os.close(wr)
            pipes.append((pid, rd))
        res = []
        failed = False
        for pid, rd in pipes:
            with os.fdopen(rd, "rb") as f:
                data = f.read()
            _, st = os.waitpid(pid, 0)
            if st != 0 or not data:
                failed = True
            else:
                res.extend(pickle.loads(data))
        errors = []
        for k, evals, distinct, counts, samples, inc, pending in sorted(res, key=lambda t: t[0]):
            self.evals += evals
            self.distinct |= distinct
            for a, b in counts.items():
                self._count(a, b)
            for s in samples:
                self.sample(s)
            self.inconclusive += inc
            for v in pending:
                if v[0] == "error":
                    errors.append(v[1])
                else:
                    self.hung = self.hung or v[1][0] == "hang"
                    self._violation(*v[1], **v[2])
        if errors:
            raise HarnessError("worker raised:\n" + errors[0])
        if failed:
            raise HarnessError("a worker process died")

    def _guard(self, fn, it):
        if len(self.violations) >= 12 or self.hung:
            return None
        try:
            return fn(it)
        except Hang:
            self.hung = True
            return None

    # ------------------------------------------------------------- recording
    def count(self, name, k=1):
        with self.lock:
            self._count(name, k)

    def _count(self, name, k):
        self.counts[name] = self.counts.get(name, 0) + k

    def seen(self, key, nontrivial=True):
        """Record one evaluated case; `key` identifies it."""
        self.evals += 1
        if nontrivial:
            self.distinct.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def sample(self, text, limit=6):
        if len(self.samples) < limit:
            self.samples.append(text if len(text) < 1500 else text[:1500] + "...")

    def violation(self, *a, **kw):
        with self.lock:
            if self.deferred:
                self.pending.append(("v", a, kw))
            else:
                self._violation(*a, **kw)

    def _violation(self, key, what, files, args=(), main=None, stdin=None, expected="", observed=""):
        """Report that the property is broken. key: stable identification of
        the failing behaviour (used for known findings and deduplication)."""
        for pat in self.known:
            if fnmatch.fnmatch(key, pat["key"]):
                if pat["key"] not in self.known_hits:
                    self.known_hits.add(pat["key"])
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, pat["what"]), flush=True)
                return
        if key in self.keys or len(self.violations) >= 12:
            self.count("violations_suppressed")
            return
        self.keys.add(key)
        d = os.path.join(VERIF, "replays", self.prop, "%s_%d" % (self.tier, len(self.violations)))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for name, text in files.items():
            p = os.path.join(d, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(text if isinstance(text, bytes) else text.encode("utf-8"))
        if stdin is not None:
            with open(os.path.join(d, "STDIN"), "wb") as f:
                f.write(stdin if isinstance(stdin, bytes) else stdin.encode("utf-8"))
        a = list(args)
        if stdin is None:
            a.append(main if main is not None else (next(iter(files)) if files else ""))
        with open(os.path.join(d, "README"), "w") as f:
            f.write("property: %s\nkey: %s\nwhat: %s\ncommand (in this directory): ethos %s%s\n"
                    "expected: %s\nobserved: %s\n" % (self.prop, key, what, " ".join(a),
                                                      " < STDIN" if stdin is not None else "", expected, observed))
        self.violations.append(key)
        print("VIOLATION property=%s replay=%s" % (self.prop, d), flush=True)
        print("  %s" % what, flush=True)
        if expected:
            print("  expected: %s" % str(expected)[:600], flush=True)
        if observed:
            print("  observed: %s" % str(observed)[:600], flush=True)

    # -------------------------------------------------------------- finishing
    def finish(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        cov = dict(evaluations=self.evals, distinct_nontrivial=len(self.distinct),
                   rule=self.rule, samples=self.samples or ["(none)"],
                   observed=dict(sorted(self.counts.items())), inconclusive=self.inconclusive)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="exploration",
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write("\n")
        print("%s %s seed=%d: %d cases (%d distinct), %d violations, %d inconclusive, %.1fs %s"
              % (self.prop, self.tier, self.seed, self.evals, len(self.distinct), len(self.violations),
                 self.inconclusive, time.time() - self.t0, json.dumps(self.counts, sort_keys=True)), flush=True)
        if self.violations:
            return 1
        if self.evals == 0 or not self.distinct:
            print("ERROR: the run observed nothing", flush=True)
            return 2
        return 0


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", line)
            if m and m.group(1) == prop:
                out.append(dict(key=m.group(2), what=m.group(3)))
    return out
