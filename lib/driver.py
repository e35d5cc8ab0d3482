#!/usr/bin/env python3
"""Run a check: build what it needs from /repo's working tree, run the workloads
in parallel under the monitors, collect events and violations, write evidence.

Exit codes: 0 the property held on everything explored; 1 it was violated (a
VIOLATION line is printed); anything else, the check could not decide.
"""
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build  # noqa: E402

PYMOD = ("py", "_arkimet.so")
try:
    from checks import CHECKS
except ImportError:
    CHECKS = {}

NPROC = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4


def log(*a):
    print(*a, flush=True)


def scratch_root():
    try:
        st = os.statvfs("/dev/shm")
        if st.f_bavail * st.f_frsize > 2 << 30 and os.access("/dev/shm", os.W_OK):
            return "/dev/shm"
    except OSError:
        pass
    return tempfile.gettempdir()


def sanitizer_env():
    env = dict(os.environ)
    symb = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18")
    ext = f":external_symbolizer_path={symb}" if symb else ""
    env["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=77:handle_abort=1:allocator_may_return_null=0:"
                           "max_allocation_size_mb=3000:detect_odr_violation=0" + ext)
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77" + ext
    env["TSAN_OPTIONS"] = ("exitcode=77:halt_on_error=1:second_deadlock_stack=1:history_size=7:"
                           f"suppressions={HERE}/tsan.supp" + ext)
    env["LC_ALL"] = "C"
    env["TZ"] = "UTC"
    for k in list(env):
        if k.startswith("ARKI_"):
            del env[k]
    return env


FRAME = re.compile(r"^\s*#\d+\s+0x[0-9a-f]+\s+(?:in\s+)?(.*)$|^\s*#\d+\s+(.*)$")


def crash_key(stderr, rc):
    """Identify a crash by its kind and by the innermost frame of arkimet's"""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([A-Za-z-]+)", stderr)
    if m:
        kind = "asan-" + m.group(1)
    m2 = re.search(r"runtime error: (.*)", stderr)
    if m2 and not kind:
        kind = "ubsan-" + re.sub(r"-?\d+|0x[0-9a-f]+|'[^']*'", "N", m2.group(1))[:60].strip().replace(" ", "-")
    m3 = re.search(r"WARNING: ThreadSanitizer: ([A-Za-z -]+)", stderr)
    if m3:
        kind = "tsan-" + m3.group(1).strip().replace(" ", "-")
    if kind is None:
        if rc is not None and rc < 0:
            kind = "signal-%d" % -rc
        else:
            kind = "exit-%s" % rc
    func = None
    where = None
    for line in stderr.splitlines():
        m = FRAME.match(line)
        if not m:
            continue
        text = m.group(1) or m.group(2) or ""
        if "arki::" in text and "/harness/" not in text and "vh::" not in text.split("(")[0]:
            mm = re.search(r"arki::[A-Za-z0-9_:~]+", text)
            func = mm.group(0) if mm else text[:60]
            loc = re.search(r"/arki/([a-zA-Z0-9_/.-]+):(\d+)", text)
            where = loc.group(0) if loc else None
            break
    return kind, func, where


class Run:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.spec = CHECKS[pid]
        self.lock = threading.Lock()
        self.counters = {}
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.known_keys = {k["key"] for k in load_known(pid)}
        self.problems = []
        self.cases = 0
        self.stop = False
        self.root = None
        self.env = sanitizer_env()
        self.started = time.time()
        default = 420 if tier == "quick" else 6 * 3600
        self.deadline = self.started + self.spec.get("deadline_" + tier, default)
        self.truncated = False

    def add_violation(self, job, case, key, detail, context, args):
        with self.lock:
            self.violations.append(dict(job=job, case=case, key=key, detail=detail, context=context, args=args))
            if sum(1 for v in self.violations if v["key"] not in self.known_keys) >= 40:
                self.stop = True
            elif len(self.violations) > 2000:
                # Many times the same known finding: keep one of each
                self.violations = list({v["key"]: v for v in reversed(self.violations)}.values())

    def run_range(self, job, lo, hi, retry=False):
        """Run cases lo..hi-1 of a job; survives crashes and hangs"""
        binary = os.path.join(build.BUILD, job["flavour"], job["binary"])
        pos = lo
        restarts = 0
        while pos < hi and not self.stop:
            if time.time() > self.deadline:
                with self.lock:
                    self.truncated = True
                return
            wd = tempfile.mkdtemp(prefix="r", dir=self.root)
            args = [binary, job["check"], "--seed", str(self.seed), "--from", str(pos), "--to", str(hi),
                    "--dir", os.path.join(wd, "d")]
            if self.tier == "thorough":
                args.append("--thorough")
            for k, v in job.get("args", {}).items():
                args += ["--" + k, str(v)]
            errpath = os.path.join(wd, "stderr")
            cur = None
            done = False
            hung = False
            skip_to = None
            env = dict(self.env)
            env.update(job.get("env", {}))
            with open(errpath, "wb") as err:
                proc = subprocess.Popen(args, stdout=subprocess.PIPE, stderr=err, stdin=subprocess.DEVNULL,
                                        env=env, cwd=wd, start_new_session=True)
                limit = job.get("case_timeout", 120) * (3 if retry else 1)
                last = [time.time()]
                fin = threading.Event()

                def watch():
                    nonlocal hung
                    while not fin.wait(1):
                        now = time.time()
                        if now - last[0] > limit or now > self.deadline + 60:
                            hung = now - last[0] > limit
                            try:
                                os.killpg(proc.pid, signal.SIGKILL)
                            except OSError:
                                pass
                            return
                w = threading.Thread(target=watch, daemon=True)
                w.start()
                for raw in proc.stdout:
                    if not raw.startswith(b"@@ "):
                        continue
                    try:
                        rec = json.loads(raw[3:])
                    except ValueError:
                        continue
                    last[0] = time.time()
                    t = rec["t"]
                    if t == "case":
                        if cur is not None:
                            with self.lock:
                                self.cases += 1
                        cur = rec["case"]
                    elif t == "violation":
                        self.add_violation(job, rec["case"], rec["key"], rec["detail"], rec["context"], args)
                    elif t == "stats":
                        with self.lock:
                            for k, v in rec["counters"].items():
                                self.counters[k] = self.counters.get(k, 0) + v
                            self.distinct.update(rec["distinct"])
                            if len(self.samples) < 12:
                                self.samples += rec["samples"][:2]
                    elif t == "done":
                        done = True
                rc = proc.wait()
                fin.set()
                w.join()
                try:
                    os.killpg(proc.pid, signal.SIGKILL)
                except OSError:
                    pass
            with open(errpath, "rb") as fd:
                fd.seek(0, 2)
                size = fd.tell()
                fd.seek(0)
                stderr = fd.read(200000).decode(errors="replace")
                if size > 200000:
                    fd.seek(max(200000, size - 20000))
                    stderr += "\n...\n" + fd.read().decode(errors="replace")
            subprocess.run(["chmod", "-R", "u+rwx", wd], stderr=subprocess.DEVNULL)
            shutil.rmtree(wd, ignore_errors=True)
            if done and rc == 0:
                if cur is not None:
                    with self.lock:
                        self.cases += 1
                return
            if done and rc != 0:
                # Something was reported at exit
                pass
            if cur is None:
                with self.lock:
                    self.problems.append(f"{job['binary']} {job['check']} did not start: rc={rc} {stderr[-1500:]}")
                return
            if hung:
                if not retry:
                    # Once more, alone, with more time
                    before = len(self.violations)
                    self.run_range(job, cur, cur + 1, retry=True)
                    _ = before
                else:
                    self.add_violation(job, cur, "hang", f"no progress in {limit} seconds, twice", stderr[-3000:], args)
            elif time.time() > self.deadline:
                with self.lock:
                    self.truncated = True
                return
            else:
                kind, func, where = crash_key(stderr, rc)
                if rc == -9:
                    with self.lock:
                        self.problems.append(f"{job['binary']} {job['check']} case {cur} was killed")
                elif func is None and not kind.startswith("asan-stack-overflow"):
                    with self.lock:
                        self.problems.append(
                            f"{job['binary']} {job['check']} case {cur} failed outside of arkimet: {kind} {stderr[-3000:]}")
                else:
                    self.add_violation(job, cur, f"crash:{kind}:{func}", f"{kind} in {func} {where or ''}",
                                       stderr[:6000], args)
            if retry:
                return
            skip_to = cur + 1
            pos = skip_to
            restarts += 1
            if restarts > 30:
                with self.lock:
                    self.problems.append(f"{job['binary']} {job['check']}: too many crashes")
                return

    def run(self):
        spec = self.spec
        jobs = spec["jobs"]
        targets = sorted({(j["flavour"], j["binary"]) for j in jobs} | {PYMOD for j in jobs if j.get("py")})
        t0 = time.time()
        build.build(targets)
        self.build_s = time.time() - t0
        self.deadline += self.build_s
        self.root = tempfile.mkdtemp(prefix="verif", dir=scratch_root())
        try:
            queue = []
            for j in jobs:
                n = j.get(self.tier, j["quick"])
                chunk = j.get("chunk") or max(1, (n + NPROC * 3 - 1) // (NPROC * 3))
                for lo in range(0, n, chunk):
                    queue.append((j, lo, min(n, lo + chunk)))
            # Spread the jobs, so that each gets its share of an early stop
            queue.reverse()
            excl = threading.Lock()

            def worker():
                while not self.stop:
                    with excl:
                        if not queue:
                            return
                        item = queue.pop()
                    try:
                        self.run_range(*item)
                    except Exception as e:  # noqa
                        with self.lock:
                            self.problems.append(f"driver: {e!r}")
            n = min(NPROC, spec.get("parallel", NPROC))
            threads = [threading.Thread(target=worker) for _ in range(n)]
            for t in threads:
                t.start()
            for t in threads:
                t.join()
        finally:
            subprocess.run(["chmod", "-R", "u+rwx", self.root], stderr=subprocess.DEVNULL)
            shutil.rmtree(self.root, ignore_errors=True)
        return self.verdict()

    def verdict(self):
        known = load_known(self.pid)
        seen_known = {}
        new = {}
        for v in self.violations:
            for k in known:
                if v["key"] == k["key"]:
                    seen_known.setdefault(k["key"], (k, v))
                    break
            else:
                new.setdefault(v["key"], v)
        code = 0
        for k in known:
            unseen = "" if k["key"] in seen_known else " (not met in this run)"
            log(f"KNOWN-FINDING: property={self.pid} {k['what']}{unseen}")
        missing = []
        for name, n in self.spec.get("need", {}).items():
            if self.tier == "thorough":
                pass
            if self.counters.get(name, 0) < n:
                missing.append(f"{name}: {self.counters.get(name, 0)} < {n}")
        for key, v in sorted(new.items()):
            code = 1
            path = save_replay(self, v)
            log(f"VIOLATION property={self.pid} replay={path}")
            log(f"  {key}: {v['detail'][:1500]}")
            if v["context"]:
                log("  context: " + v["context"][:1500].replace("\n", "\n    "))
        for p in self.problems[:5]:
            log("PROBLEM:", p[:3000])
        if code == 0 and self.problems:
            code = 2
        if code == 0 and missing:
            log("PROBLEM: the monitors did not observe enough:", "; ".join(missing))
            code = 2
        wall = time.time() - self.started
        ev = dict(
            property=self.pid, tier=self.tier, seed=self.seed, level=self.spec["level"],
            coverage=dict(
                evaluations=int(self.counters.get("evals", self.cases)),
                distinct_nontrivial=len(self.distinct),
                rule=self.spec["rule"],
                samples=self.samples[:8] or ["(none)"],
                cases=self.cases,
                observed=dict(sorted(self.counters.items())),
                truncated=self.truncated,
                build_s=round(self.build_s, 1),
            ),
            assumptions=self.spec.get("assumptions", []),
            wall_s=round(wall, 2),
            violations=len(new),
        )
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", self.pid + ".json.tmp%d" % os.getpid())
        with open(tmp, "w") as fd:
            json.dump(ev, fd, indent=1)
            fd.write("\n")
        os.rename(tmp, os.path.join(VERIF, "evidence", self.pid + ".json"))
        log(f"{self.pid} {self.tier} seed={self.seed}: {self.cases} cases, "
            f"{ev['coverage']['evaluations']} evaluations, {len(self.distinct)} distinct, "
            f"{len(new)} violations, build {self.build_s:.1f}s, total {wall:.1f}s, exit {code}")
        return code


def load_known(pid):
    path = os.path.join(VERIF, "known-findings.json")
    try:
        with open(path) as fd:
            data = json.load(fd)
    except FileNotFoundError:
        return []
    return [k for k in data["findings"] if k["property"] == pid]


def save_replay(run, v):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1((v["key"] + str(v["case"])).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{run.pid}-{h}.json")
    with open(path, "w") as fd:
        json.dump(dict(property=run.pid, seed=run.seed, tier=run.tier, key=v["key"], detail=v["detail"],
                       context=v["context"], flavour=v["job"]["flavour"], binary=v["job"]["binary"],
                       check=v["job"]["check"], py=bool(v["job"].get("py")), args=v["job"].get("args", {}), case=v["case"]), fd, indent=1)
    return path


def replay(path):
    with open(path) as fd:
        r = json.load(fd)
    build.build([(r["flavour"], r["binary"])] + ([PYMOD] if r.get("py") else []))
    wd = tempfile.mkdtemp(prefix="replay", dir=scratch_root())
    args = [os.path.join(build.BUILD, r["flavour"], r["binary"]), r["check"], "--seed", str(r["seed"]),
            "--from", str(r["case"]), "--to", str(r["case"] + 1), "--dir", wd + "/d"]
    if r["tier"] == "thorough":
        args.append("--thorough")
    for k, v in r["args"].items():
        args += ["--" + k, str(v)]
    print(" ".join(args), file=sys.stderr)
    try:
        return subprocess.run(args, env=sanitizer_env()).returncode
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        targets = sorted({(j["flavour"], j["binary"]) for c in CHECKS.values() for j in c["jobs"]} | {PYMOD})
        build.build(targets)
        return
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        sys.exit(Run(pid, tier, seed).run())
    except build.BuildError as e:
        log("PROBLEM: build failed:", e)
        sys.exit(3)


if __name__ == "__main__":
    main()
