"""Driver shared by all checks: builds harnesses from /repo's working tree, runs them
under sanitizers and monitors, turns what was observed into a verdict and evidence."""
import concurrent.futures as cf
import hashlib
import json
import mmap
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src/main/cpp")
CACHE = os.path.join(VERIF, ".build")
CPUS = os.cpu_count() or 8
T0 = time.time()

BASE_FLAGS = [
    "-std=c++17", "-g1", "-w", "-fno-omit-frame-pointer",
    "-include", "complex", "-include", "fstream", "-include", "boost/filesystem/fstream.hpp",
    "-DBALAU_DEBUG", "-D_GLIBCXX_ASSERTIONS", "-pthread",
]
LIBS = ["-lboost_thread", "-lboost_chrono", "-lboost_date_time", "-lboost_filesystem", "-lboost_system",
        "-lboost_serialization", "-lboost_iostreams", "-lboost_locale", "-licui18n", "-licuuc", "-licudata", "-lz", "-lzip",
        "-lssl", "-lcrypto", "-lrt", "-lbz2", "-ldl", "-lboost_atomic"]
LOGGING_SRCS = ["Balau/Logging/Logger.cpp", "Balau/Logging/Impl/LoggingState.cpp",
                "Balau/Logging/Impl/LoggingStreams.cpp", "Balau/Logging/Impl/LoggerItems.cpp",
                "Balau/Logging/Impl/LoggerAllocator.cpp", "Balau/Logging/Impl/LoggerHolder.cpp"]
SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"],
    "tsan": ["-fsanitize=thread"],
    "plain": [],
}
ENV = {
    "asan": {
        "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:handle_abort=1:detect_stack_use_after_return=1:"
                        "allocator_may_return_null=1:exitcode=99:strict_string_checks=0:detect_container_overflow=1:"
                        "max_allocation_size_mb=4096:malloc_context_size=12",
        "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    },
    "tsan": {"TSAN_OPTIONS": "halt_on_error=0:report_signal_unsafe=0:second_deadlock_stack=1:history_size=4:exitcode=0:"
                             "suppressions=" + os.path.join(VERIF, "lib/tsan.supp")},
    "plain": {},
}


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


class CheckError(Exception):
    pass


# ---------------------------------------------------------------- building

def config_include_dir():
    """BalauConfig.hpp and BalauVersion.hpp, generated from /repo's templates with the
    options that the repository's own build uses here (no dependency on /repo/_build)."""
    out = os.path.join(CACHE, "config")
    on = {"BALAU_ENABLE_ZLIB", "BALAU_ENABLE_ZIP", "BALAU_ENABLE_HTTP", "BALAU_ENABLE_CURL", "BOOST_BEAST_NEW_API"}
    for rel in ("Balau/BalauConfig.hpp", "Balau/Type/BalauVersion.hpp"):
        src = os.path.join(SRC, rel + ".in")
        if not os.path.exists(src):
            continue
        text = open(src).read()
        text = re.sub(r"#cmakedefine (\w+)(.*)",
                      lambda m: "#define %s%s" % (m.group(1), m.group(2)) if m.group(1) in on
                      else "/* #undef %s */" % m.group(1), text)
        text = re.sub(r"\$\{\w+\}|@\w+@", "1", text)
        dst = os.path.join(out, rel)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        if not os.path.exists(dst) or open(dst).read() != text:
            tmp = dst + ".%d" % os.getpid()
            open(tmp, "w").write(text)
            os.replace(tmp, dst)
    return out


_tree = None


def tree_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, "src/main"))):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
        for f in ("vf.hpp",):
            h.update(open(os.path.join(VERIF, "lib", f), "rb").read())
        _tree = h.hexdigest()
    return _tree


class Target:
    def __init__(self, name, srcs, san="asan", opt="-O1", repo_srcs=(), wraps=(), flags=(), libs=(), cxx="g++",
                 extra_includes=(), pre=None):
        self.name, self.srcs, self.san, self.opt = name, list(srcs), san, opt
        self.repo_srcs, self.wraps, self.flags, self.libs, self.cxx = list(repo_srcs), list(wraps), list(flags), list(libs), cxx
        self.extra_includes = list(extra_includes)
        self.pre = pre
        self.binary = None

    def compile_jobs(self):
        inc = ["-I" + d for d in self.extra_includes] + ["-I" + SRC, "-I" + config_include_dir(), "-I" + os.path.join(VERIF, "lib"),
                                                       "-I" + os.path.join(VERIF, "harness")]
        flags = BASE_FLAGS + [self.opt] + SAN[self.san] + self.flags + inc
        jobs = []
        for s in self.srcs:
            jobs.append((s if os.path.isabs(s) else os.path.join(VERIF, "harness", s), flags))
        for s in self.repo_srcs:
            jobs.append((s if os.path.isabs(s) else os.path.join(SRC, s), flags))
        return jobs


def harness_sources_hash():
    h = hashlib.sha256()
    for d in ("harness",):
        for f in sorted(os.listdir(os.path.join(VERIF, d))):
            p = os.path.join(VERIF, d, f)
            if f.endswith(".hpp") and os.path.isfile(p):
                h.update(open(p, "rb").read())
    return h.hexdigest()


def run_cmd(cmd, timeout=800):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def build(targets):
    """Compile all objects of all targets in parallel, then link."""
    os.makedirs(CACHE, exist_ok=True)
    config_include_dir()
    objs = {}
    order = {}
    hh = harness_sources_hash()
    for t in targets:
        if t.pre:
            t.pre(t)
        order[t.name] = []
        for src, flags in t.compile_jobs():
            key = hashlib.sha256("\0".join([tree_hash(), hh, t.cxx, src, open(src, "rb").read().hex() if os.path.exists(src) else "", " ".join(flags)])
                                 .encode()).hexdigest()[:24]
            o = os.path.join(CACHE, "o", key + ".o")
            order[t.name].append(o)
            if not os.path.exists(o):
                objs[o] = [t.cxx] + flags + ["-c", src, "-o", o + ".%d.tmp" % os.getpid()]
    os.makedirs(os.path.join(CACHE, "o"), exist_ok=True)

    def comp(item):
        o, cmd = item
        rc, out = run_cmd(cmd)
        if rc == 0:
            os.replace(cmd[-1], o)
        return o, cmd, rc, out
    log("building %d objects for %s" % (len(objs), ", ".join(t.name for t in targets)))
    with cf.ThreadPoolExecutor(CPUS) as ex:
        for o, cmd, rc, out in ex.map(comp, objs.items()):
            if rc != 0:
                raise CheckError("compilation failed: %s\n%s" % (cmd[cmd.index("-c") + 1], re.sub(r"(?m)^.*note:.*$", "", "\n".join(l for l in out.splitlines() if "error" in l)[:2500] or out[-2500:])))

    def link(t):
        key = hashlib.sha256("\0".join(order[t.name] + t.wraps + t.libs + [t.cxx, t.san]).encode()).hexdigest()[:24]
        b = os.path.join(CACHE, "%s-%s" % (t.name, key))
        t.binary = b
        if os.path.exists(b):
            return None
        cmd = [t.cxx] + SAN[t.san] + ["-pthread"] + order[t.name] + ["-Wl,--wrap=" + w for w in t.wraps] + t.libs + LIBS + ["-o", b + ".tmp"]
        rc, out = run_cmd(cmd)
        if rc != 0:
            return "link failed: %s\n%s" % (t.name, out[-6000:])
        os.replace(b + ".tmp", b)
        return None
    with cf.ThreadPoolExecutor(CPUS) as ex:
        for err in ex.map(link, targets):
            if err:
                raise CheckError(err)
    prune()
    log("build done")


def prune():
    """Keep the cache small: drop files not used for a day, or beyond 6 GB."""
    fs = []
    for d in (CACHE, os.path.join(CACHE, "o")):
        for f in os.listdir(d):
            p = os.path.join(d, f)
            if os.path.isfile(p):
                s = os.stat(p)
                fs.append((max(s.st_atime, s.st_mtime), s.st_size, p))
    fs.sort(reverse=True)
    total = 0
    for t, size, p in fs:
        total += size
        if total > 6e9 and time.time() - t > 1800:
            try:
                os.remove(p)
            except OSError:
                pass


# ---------------------------------------------------------------- interpreting a crash

FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?)(?::(\d+))?(?::\d+)?$|#\d+ (.+?) (/\S+?)(?::(\d+))?(?::\d+)? \(")


def clean_fn(fn):
    fn = re.sub(r"\(.*", "", fn)
    prev = None
    while prev != fn:
        prev = fn
        fn = re.sub(r"<[^<>]*>", "", fn)
    fn = fn.strip().split(" ")[-1]
    parts = fn.split("::")
    return "::".join(parts[-2:]) if len(parts) > 1 else fn


def repo_frame(text):
    for line in text.splitlines():
        line = line.strip()
        m = re.match(r"#\d+ (?:0x[0-9a-f]+ in )?(.+) (\S*/Balau/\S+?)(?::\d+)*(?: \(.*)?$", line)
        if m:
            return clean_fn(m.group(1))
    for line in text.splitlines():
        m = re.match(r"\s*#\d+ (?:0x[0-9a-f]+ in )?(Balau::.+?) ", line)
        if m:
            return clean_fn(m.group(1))
    return "?"


def crash_key(err, rc):
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
    if m:
        kind = m.group(1)
        if kind == "ABRT" or "attempting" in kind:
            t = re.search(r"terminate called after throwing an instance of '([^']+)'", err)
            if t:
                return "terminate:" + t.group(1), "uncaught exception"
        body = err[m.start():]
        return "asan:%s:%s" % (kind.rstrip(":"), repo_frame(body)), kind
    m = re.search(r"(\S+?):(\d+):\d+: runtime error: ([^\n]*)", err)
    if m:
        msg = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(3))
        fn = repo_frame(err[m.start():])
        return "ubsan:%s:%s" % (msg[:60].strip(), fn if fn != "?" else os.path.basename(m.group(1))), msg
    m = re.search(r"terminate called after throwing an instance of '([^']+)'", err)
    if m:
        return "terminate:" + m.group(1), "uncaught exception"
    if "terminate called" in err:
        return "terminate", "terminate"
    if rc is not None and rc < 0:
        return "signal:%d" % -rc, "died by signal"
    return "exit:%s" % rc, "unexpected exit"


TSAN_BLOCK = re.compile(r"WARNING: ThreadSanitizer: (.+?) \(pid=\d+\)\n(.*?)\n==================", re.S)


def tsan_reports(err):
    out = []
    for m in TSAN_BLOCK.finditer(err):
        kind, body = m.group(1), m.group(2)
        # the two stacks of the conflicting accesses
        stacks = re.split(r"\n\s*\n", body)
        fns = []
        for s in stacks[:2]:
            f = repo_frame(s)
            if f != "?":
                fns.append(f)
        key = "tsan:%s:%s" % (kind, "|".join(sorted(set(fns))) or "?")
        out.append((key, body[:3500]))
    return out


# ---------------------------------------------------------------- running

class Run:
    def __init__(self, target, mode, quick, thorough=None, shards=None, case_timeout=90, env=None, setup=None, hang_key=None,
                 weight=1, user=None):
        self.target, self.mode, self.quick = target, mode, quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.shards, self.case_timeout, self.env = shards, case_timeout, env or {}
        self.hang_key = hang_key
        self.weight = weight


class Check:
    def __init__(self, prop, targets, runs, rule, assumptions=(), level="exploration", post=None, min_distinct=2, required=()):
        self.prop, self.targets, self.runs, self.rule = prop, targets, runs, rule
        self.assumptions, self.level, self.post, self.min_distinct = list(assumptions), level, post, min_distinct
        self.required = list(required)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.violations = {}
        self.inconclusive = []
        self.counters = {}
        self.samples = []
        self.distinct = set()
        self.known = {}
        self.load_known()
        self.scratch = None
        self.found = self.abort = False  # a violation that is not listed was seen; stop exploring

    def load_known(self):
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"KNOWN property=(\S+) key=(\S+) :: (.*)", line.strip())
                if m and m.group(1) == self.prop:
                    self.known[m.group(2)] = m.group(3)

    def add_violation(self, key, detail, replay):
        v = self.violations.setdefault(key.replace(" ", "_"), {"n": 0, "detail": detail, "replay": replay})
        v["n"] += 1
        if key.replace(" ", "_") not in self.known:
            self.found = True

    # one process over a case range; returns the next case to run, or None when complete
    def one(self, run, target, lo, hi, idx, timeout):
        out = os.path.join(self.scratch, "%s-%s-%d-%d-%d.jsonl" % (target.name, run.mode, lo, hi, idx))
        for suffix in ("", ".prog", ".distinct", ".err"):
            if os.path.exists(out + suffix):
                os.remove(out + suffix)
        sd = os.path.join(self.scratch, "w-%s-%s-%d-%d" % (target.name, run.mode, lo, idx))
        os.makedirs(sd, exist_ok=True)
        cmd = [target.binary, "--mode", run.mode, "--seed", str(self.seed), "--from", str(lo), "--to", str(hi),
               "--out", out, "--scratch", sd, "--tier", self.tier]
        env = dict(os.environ)
        env.update({"LC_ALL": "C.UTF-8", "TZ": "UTC", "HOME": sd, "TMPDIR": sd})
        env.update(ENV[target.san])
        env.update(run.env)
        errf = open(out + ".err", "wb")
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=errf, env=env, cwd=sd, start_new_session=True,
                             stdin=subprocess.DEVNULL)
        last, since, hung = None, time.time(), False
        while True:
            try:
                p.wait(0.05 if time.time() - since < 1 else 0.25)
                break
            except subprocess.TimeoutExpired:
                pass
            if time.time() > self.stop_after and (self.found or self.unlisted(out)):
                # Violations can be slow (threads that never wake up): what was found is enough.
                self.abort = True
                break
            cur = self.progress(out)
            if cur != last:
                last, since = cur, time.time()
            elif time.time() - since > timeout:
                hung = True
                break
        stack = ""
        if hung:
            stack = self.stacks(p.pid)
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()
        errf.close()
        err = open(out + ".err", "rb").read()
        if len(err) > 4000000:
            err = err[:2000000] + b"\n...\n" + err[-2000000:]
        err = err.decode("utf-8", "replace")
        done = False
        reported = False
        if os.path.exists(out):
            for line in open(out, errors="replace"):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if r["t"] == "v":
                    reported = True
                    self.add_violation(r["key"], r["detail"], self.replay_info(run, target, r["case"], r["detail"]))
                elif r["t"] == "stats":
                    done = r["done"]
                    for k, n in r["counters"].items():
                        self.counters[k] = self.counters.get(k, 0) + n
                    for s in r["samples"]:
                        if len(self.samples) < 10 and s not in self.samples:
                            self.samples.append(s)
        if os.path.exists(out + ".distinct"):
            d = open(out + ".distinct", "rb").read()
            self.distinct.update(struct.unpack("<%dQ" % (len(d) // 8), d[:len(d) // 8 * 8]))
        if target.san == "tsan":
            for key, body in tsan_reports(err):
                self.add_violation(key, body, self.replay_info(run, target, lo, body, hi))
                self.counters["tsan reports"] = self.counters.get("tsan reports", 0) + 1
        cur = self.progress(out)
        shutil.rmtree(sd, ignore_errors=True)
        return p.returncode, done, cur, hung, err, reported, stack

    def unlisted(self, out):
        try:
            for line in open(out, errors="replace"):
                if line.startswith('{"t":"v"'):
                    try:
                        if json.loads(line)["key"].replace(" ", "_") not in self.known:
                            self.found = True
                            return True
                    except ValueError:
                        pass
        except OSError:
            pass
        return False

    @staticmethod
    def stacks(pid):
        try:
            r = subprocess.run(["gdb", "-p", str(pid), "-batch", "-ex", "thread apply all bt 12"], stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, timeout=60)
            return r.stdout.decode("utf-8", "replace")[-6000:]
        except Exception:
            return ""

    @staticmethod
    def progress(out):
        try:
            with open(out + ".prog", "rb") as f:
                b = f.read(8)
                return struct.unpack("<q", b)[0] if len(b) == 8 else None
        except OSError:
            return None

    def replay_info(self, run, target, case, detail, to=None):
        return {"property": self.prop, "target": target.name, "mode": run.mode, "seed": self.seed, "case": case,
                "to": to if to is not None else case + 1, "detail": detail[:3000], "tier": self.tier}

    def shard(self, args):
        run, target, lo, hi, idx = args
        restarts = 0
        while lo < hi and not self.abort:
            rc, done, cur, hung, err, reported, stack = self.one(run, target, lo, hi, idx, run.case_timeout)
            if self.abort:
                return
            if cur is None:
                raise CheckError("harness %s did not start: rc=%s %s" % (target.name, rc, err[-2000:]))
            if hung:
                # a time-out decides nothing by itself: run that one case again, alone, for twice as long
                rc2, done2, cur2, hung2, err2, rep2, stack2 = self.one(run, target, cur, cur + 1, idx + 1000, run.case_timeout * 2)
                if self.abort:
                    return
                if hung2:
                    self.add_violation(run.hang_key or ("hang:" + run.mode), "case %d made no progress for %ds, twice\n%s" %
                                       (cur, run.case_timeout, stack2 or stack), self.replay_info(run, target, cur, "hang"))
                else:
                    self.inconclusive.append("mode %s case %d timed out once, completed when run again" % (run.mode, cur))
                    if rc2 not in (0, 77) and not done2:
                        k, d = crash_key(err2, rc2)
                        self.add_violation(k, err2[-3000:], self.replay_info(run, target, cur, d))
                lo = cur + 1
            elif rc == 0 and done:
                return
            else:
                if rc != 77 or not reported:
                    k, d = crash_key(err, rc)
                    i = max(err.find("ERROR: AddressSanitizer"), err.find("runtime error"), 0)
                    self.add_violation(k, err[max(0, i - 200):i + 3000] or d, self.replay_info(run, target, cur, d))
                lo = cur + 1
            restarts += 1
            if restarts > 12:
                self.inconclusive.append("mode %s: gave up after %d restarts at case %d" % (run.mode, restarts, lo))
                return

    def execute(self, only=None):
        build(self.targets)
        self.scratch = tempfile.mkdtemp(prefix="vf-%s-" % self.prop)
        self.stop_after = time.time() + (60 if self.tier == "quick" else 1200)
        try:
            by = {t.name: t for t in self.targets}
            jobs = []
            for r in self.runs:
                t = by[r.target]
                n = r.thorough if self.tier == "thorough" else r.quick
                if n <= 0:
                    continue
                k = min(n, r.shards or CPUS)
                for i in range(k):
                    lo, hi = n * i // k, n * (i + 1) // k
                    jobs.append((r, t, lo, hi, i))
            jobs.sort(key=lambda j: -j[0].weight)
            w = max(j[0].weight for j in jobs)
            with cf.ThreadPoolExecutor(CPUS) as ex:
                for _ in ex.map(self.shard, jobs):
                    pass
            if self.post:
                self.post(self)
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)
        return self.finish()

    def finish(self):
        new, known = {}, {}
        for k, v in sorted(self.violations.items()):
            (known if k in self.known else new)[k] = v
        evaluations = sum(n for k, n in self.counters.items() if k.startswith("cases:"))
        cov = {
            "evaluations": evaluations,
            "distinct_nontrivial": len(self.distinct),
            "rule": self.rule,
            "samples": self.samples[:8],
            "observed": {k: v for k, v in sorted(self.counters.items())},
            "inconclusive": self.inconclusive[:20],
            "known_findings_seen": sorted(known),
        }
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 1), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k in sorted(known):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[k]))
        for i in self.inconclusive:
            print("inconclusive:", i)
        log("evaluations=%d distinct=%d violations=%d known=%d" % (evaluations, len(self.distinct), len(new), len(known)))
        if new:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            for k, v in new.items():
                name = "%s-%s.json" % (self.prop, hashlib.sha256(k.encode()).hexdigest()[:10])
                path = os.path.join(rd, name)
                r = dict(v["replay"])
                r["key"] = k
                json.dump(r, open(path, "w"), indent=1)
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  key: %s  (seen %d times)" % (k, v["n"]))
                print("  " + v["detail"][:1200].replace("\n", "\n  "))
            return 1
        # a run that observed nothing proves nothing
        for name, minimum in self.required:
            if self.counters.get(name, 0) < minimum:
                raise CheckError("observed only %d of %r (at least %d expected)" % (self.counters.get(name, 0), name, minimum))
        if evaluations == 0 or len(self.distinct) < self.min_distinct:
            raise CheckError("the run observed too little: %d evaluations, %d distinct" % (evaluations, len(self.distinct)))
        return 0

    def replay(self, path):
        r = json.load(open(path))
        self.seed = r["seed"]
        self.tier = r.get("tier", "quick")
        by = {t.name: t for t in self.targets}
        t = by[r["target"]]
        build([t])
        cmd = [t.binary, "--mode", r["mode"], "--seed", str(r["seed"]), "--from", str(r["case"]), "--to", str(r["to"]),
               "--tier", self.tier, "--scratch", tempfile.mkdtemp(prefix="vf-replay-")]
        env = dict(os.environ)
        env.update(ENV[t.san])
        env.update({"LC_ALL": "C.UTF-8", "TZ": "UTC"})
        for run in self.runs:
            if run.mode == r["mode"]:
                env.update(run.env)
        print(" ".join(cmd))
        return subprocess.call(cmd, env=env)


def main(check):
    if len(sys.argv) > 2 and sys.argv[2] == "--replay":
        sys.exit(check.replay(sys.argv[3]))
    try:
        sys.exit(check.execute())
    except CheckError as e:
        print("ERROR:", e)
        sys.exit(3)


INJECT_WRAPS = ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_clockwait", "pthread_cond_timedwait",
                "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE",
                "_ZNSt18condition_variable10notify_oneEv", "_ZNSt18condition_variable10notify_allEv"]
