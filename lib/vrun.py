"""Shared machinery of every check: build, run workers, collect monitors, decide.

A check is a list of stages.  A stage is either
  - C("exe", quick=N, thorough=M): a C harness that runs numbered cases, or
  - Py("module", drivers={...}, quick=N, thorough=M): numbered cases generated and
    judged in Python which drive a C executable over a pipe.
Every case is derived from (VERIF_SEED, stage, case number) alone.
"""
import os, sys, json, time, struct, subprocess, hashlib, random, signal, fcntl
import importlib, multiprocessing, re, shutil, tempfile, traceback, mmap, select

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
WORK = os.path.join(ROOT, "work")
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
KNOWN = os.path.join(ROOT, "KNOWN_FINDINGS.txt")

SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=99:second_deadlock_stack=1",
}


class HarnessError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# --------------------------------------------------------------------- build
def build(mode, targets):
    bdir = os.path.join(BUILD, mode)
    os.makedirs(bdir, exist_ok=True)
    with open(os.path.join(BUILD, mode + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = dict(os.environ)
        env.pop("CC", None)
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        if not os.path.exists(os.path.join(bdir, "build.ninja")):
            cmd = [
                "cmake", "-S", REPO, "-B", bdir, "-G", "Ninja",
                "-DCMAKE_BUILD_TYPE=debug", "-DBUILD_TESTS=yes",
                "-DBUILD_SERVER_CODE=yes", "-DDISABLE_ASAN=TRUE",
                "-DPYTHON_3_CMD=/usr/bin/python3",
                "-DCMAKE_C_COMPILER=" + os.path.join(ROOT, "tools", "vcc-" + mode),
                "-DCMAKE_C_FLAGS=-DSPLINTERMAIL_VERIF",
                "-DCMAKE_PROJECT_splintermail_INCLUDE=" + os.path.join(ROOT, "harness", "inject.cmake"),
                "-DVERIF_HARNESS_DIR=" + os.path.join(ROOT, "harness"),
            ]
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                shutil.rmtree(bdir, ignore_errors=True)
                raise HarnessError("configure failed:\n" + r.stdout[-4000:])
        r = subprocess.run(["ninja", "-C", bdir, "-j", str(NPROC)] + list(targets), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise HarnessError("build failed:\n" + r.stdout[-6000:])
    return bdir


def exe_path(mode, name):
    p = os.path.join(BUILD, mode, "harness", name)
    if not os.path.exists(p):
        p = os.path.join(BUILD, mode, name)
    return p


# ------------------------------------------------------------------- results
class Result:
    def __init__(self):
        self.evals = 0
        self.distinct = set()
        self.counts = {}
        self.samples = []
        self.viols = []      # (key, case, msg, extra)
        self.errors = []
        self.incon = []

    def merge(self, o):
        self.evals += o.evals
        self.distinct |= o.distinct
        for k, v in o.counts.items():
            if k.startswith("max_"):
                self.counts[k] = max(self.counts.get(k, 0), v)
            else:
                self.counts[k] = self.counts.get(k, 0) + v
        self.samples += o.samples
        self.viols += o.viols
        self.errors += o.errors
        self.incon += o.incon


def san_key(text):
    """derive a stable key from a sanitizer report"""
    kind = None
    m = re.search(r"ERROR: (?:AddressSanitizer|LeakSanitizer): ([\w-]+)", text)
    if m:
        kind = m.group(1)
    if not kind:
        m = re.search(r"runtime error: (.*)", text)
        if m:
            kind = "ub:" + re.sub(r"-?\d+|0x[0-9a-f]+", "N", m.group(1))[:60]
    if not kind:
        m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", text)
        if m:
            kind = "tsan:" + m.group(1).strip()
    if not kind:
        m = re.search(r"Assertion .* failed|VH_ABORT: .*", text)
        if m:
            kind = "abort:" + m.group(0)[:80]
    fn = None
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", text):
        loc = m.group(2)
        if REPO in loc or "/libdstr" in loc or "/repo" in loc:
            fn = m.group(1)
            break
    if kind is None:
        return None
    return re.sub(r"\s+", "-", kind) + ("@" + fn if fn else "")


# ------------------------------------------------------------------ C stages
class C:
    kind = "c"

    def __init__(self, exe, quick, thorough, mode="asan", args=(), case_timeout=20,
                 chunk=None, leak=False, targets=(), jobs=None, env=None):
        self.exe, self.quick, self.thorough = exe, quick, thorough
        self.mode, self.args, self.case_timeout = mode, list(args), case_timeout
        self.chunk, self.leak, self.extra_targets = chunk, leak, list(targets)
        self.jobs = jobs
        self.env = env or {}
        self.name = exe + ("-" + "-".join(self.args) if self.args else "") + ("" if mode == "asan" else "-" + mode)

    def targets(self):
        return {self.mode: [self.exe] + self.extra_targets}


def _run_c(stage, exe, seed, start, count, wdir, timeout, verbose=False):
    os.makedirs(wdir, exist_ok=True)
    stats = os.path.join(wdir, "stats")
    prog = os.path.join(wdir, "progress")
    for f in (stats, stats + ".d"):
        if os.path.exists(f):
            os.unlink(f)
    with open(prog, "wb") as f:
        f.write(b"\0" * 16)
    tmp = os.path.join(wdir, "tmp")
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp, exist_ok=True)
    env = dict(os.environ)
    env.update(SAN_ENV)
    if stage.leak:
        env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1")
    env.update(stage.env)
    env["TMPDIR"] = tmp
    env["VH_TMP"] = tmp
    env["VERIF_DATA"] = os.path.join(ROOT, "data")
    env["VERIF_TESTFILES"] = os.path.join(REPO, "test", "files")
    cmd = [exe, "--seed", str(seed), "--start", str(start), "--count", str(count),
           "--stats", stats, "--progress", prog, "--timeout", str(timeout)]
    if verbose:
        cmd.append("--verbose")
    cmd += stage.args
    with open(os.path.join(wdir, "out"), "wb") as fo, open(os.path.join(wdir, "err"), "wb") as fe:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe, env=env, cwd=tmp, start_new_session=True)
        try:
            # generous backstop over the per-case watchdog inside the harness
            p.wait(timeout=timeout * 3 + count * 2 + 600)
        except subprocess.TimeoutExpired:
            pass
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
    rc = p.returncode
    with open(prog, "rb") as f:
        cur, _ = struct.unpack("<QQ", f.read(16))
    res = Result()
    if os.path.exists(stats):
        with open(stats, "rb") as f:
            for line in f:
                line = line.decode("utf8", "replace").rstrip("\n")
                if not line:
                    continue
                t, _, rest = line.partition(" ")
                if t == "S":
                    k, _, v = rest.partition(" ")
                    res.counts[k] = res.counts.get(k, 0) + int(v)
                elif t == "M":
                    k, _, v = rest.partition(" ")
                    res.counts["max_" + k] = max(res.counts.get("max_" + k, 0), int(v))
                elif t == "E":
                    res.evals += int(rest)
                elif t == "X":
                    res.samples.append(rest[:1500])
                elif t == "V":
                    case, key, msg = (rest.split(" ", 2) + [""])[:3]
                    res.viols.append((key, int(case), msg, stage.name))
                elif t == "I":
                    res.incon.append(rest)
    if os.path.exists(stats + ".d"):
        with open(stats + ".d", "rb") as f:
            data = f.read()
        for i in range(0, len(data) - 7, 8):
            res.distinct.add(data[i:i + 8])
    with open(os.path.join(wdir, "err"), "rb") as f:
        f.seek(0, 2)
        n = f.tell()
        f.seek(max(0, n - 200000))
        err = f.read().decode("utf8", "replace")
    shutil.rmtree(tmp, ignore_errors=True)
    return rc, cur, res, err


def _c_worker(a):
    stage, exe, seed, jobs, wdir = a
    tot = Result()
    try:
        for start, count in jobs:
            pos, left = start, count
            crashes = 0
            while left > 0:
                rc, cur, res, err = _run_c(stage, exe, seed, pos, left, wdir, stage.case_timeout)
                tot.merge(res)
                if rc == 0:
                    if res.evals < left and not res.viols:
                        tot.errors.append("%s: ended after %d of %d cases: %s" % (stage.name, res.evals, left, err[-800:]))
                    break
                # something ended the harness early, during case `cur`
                if rc == 97:
                    # watchdog: try that case again alone, with a far longer limit
                    rc2, _, res2, err2 = _run_c(stage, exe, seed, cur, 1, wdir, stage.case_timeout * 6)
                    if rc2 == 97:
                        tot.viols.append(("hang", cur, "case did not finish: " + err2[-600:], stage.name))
                    elif rc2 == 0:
                        tot.merge(res2)
                        tot.incon.append("case %d of %s slow once" % (cur, stage.name))
                    else:
                        k = san_key(err2)
                        if k is None:
                            tot.errors.append("%s case %d rc=%s: %s" % (stage.name, cur, rc2, err2[-1500:]))
                            return tot
                        tot.viols.append((k, cur, err2[-6000:], stage.name))
                    crashes += 1
                elif rc == 98:
                    tot.errors.append("%s case %d: harness error: %s" % (stage.name, cur, err[-1500:]))
                    return tot
                else:
                    k = san_key(err)
                    if k is None and rc < 0:
                        k = "signal:%d" % (-rc)
                    if k is None:
                        tot.errors.append("%s case %d rc=%s: %s" % (stage.name, cur, rc, err[-1500:]))
                        return tot
                    tot.viols.append((k, cur, err[-6000:], stage.name))
                    crashes += 1
                done = cur - pos + 1
                pos, left = cur + 1, left - done
                if crashes >= 4:
                    break
            if len(set(v[0] for v in tot.viols)) > 20 or len(tot.viols) > 400:
                break
    except Exception:
        tot.errors.append(traceback.format_exc())
    return tot


def run_c_stage(stage, seed, tier, wroot):
    n = stage.quick if tier == "quick" else stage.thorough
    exe = exe_path(stage.mode, stage.exe)
    jobs = stage.jobs or NPROC
    chunk = stage.chunk or max(1, (n + jobs - 1) // jobs)
    parts = [(s, min(chunk, n - s)) for s in range(0, n, chunk)]
    buckets = [parts[i::jobs] for i in range(jobs)]
    args = [(stage, exe, seed, b, os.path.join(wroot, "%s-%d" % (stage.name, i)))
            for i, b in enumerate(buckets) if b]
    res = Result()
    with multiprocessing.Pool(len(args)) as pool:
        for r in pool.imap_unordered(_c_worker, args):
            res.merge(r)
    return res


# ------------------------------------------------------------- Python stages
class DriverDied(Exception):
    def __init__(self, rc, err):
        Exception.__init__(self, "driver died rc=%s" % rc)
        self.rc, self.err = rc, err


class DriverHang(Exception):
    pass


class Driver:
    """length-prefixed request/response with a C executable"""

    def __init__(self, exe, args=(), wdir=None, env=None, timeout=60):
        self.exe, self.args, self.wdir, self.env = exe, list(args), wdir, env or {}
        self.timeout = timeout
        self.p = None

    def start(self):
        env = dict(os.environ)
        env.update(SAN_ENV)
        env.update(self.env)
        self.errpath = os.path.join(self.wdir, os.path.basename(self.exe) + ".%d.err" % id(self))
        self.ferr = open(self.errpath, "wb")
        self.p = subprocess.Popen([self.exe] + self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.ferr, env=env, cwd=self.wdir, start_new_session=True, bufsize=0)
        self.buf = b""

    def _read(self, n):
        fd = self.p.stdout.fileno()
        while len(self.buf) < n:
            r, _, _ = select.select([fd], [], [], self.timeout)
            if not r:
                self.kill()
                raise DriverHang()
            d = os.read(fd, 1 << 20)
            if not d:
                self.p.wait()
                rc = self.p.returncode
                self.ferr.close()
                with open(self.errpath, "rb") as f:
                    err = f.read()[-60000:].decode("utf8", "replace")
                self.p = None
                raise DriverDied(rc, err)
            self.buf += d
        out, self.buf = self.buf[:n], self.buf[n:]
        return out

    def call(self, *fields):
        if self.p is None:
            self.start()
        out = [struct.pack("<I", len(fields))]
        for f in fields:
            if isinstance(f, str):
                f = f.encode("utf8", "surrogateescape")
            elif isinstance(f, int):
                f = str(f).encode()
            out.append(struct.pack("<I", len(f)))
            out.append(f)
        data = b"".join(out)
        try:
            mv = memoryview(data)
            while mv:
                k = os.write(self.p.stdin.fileno(), mv)
                mv = mv[k:]
        except BrokenPipeError:
            pass
        n, = struct.unpack("<I", self._read(4))
        res = []
        for _ in range(n):
            k, = struct.unpack("<I", self._read(4))
            res.append(self._read(k))
        return res

    def kill(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.p.wait()
            self.p = None

    def close(self):
        self.kill()


class Py:
    kind = "py"

    def __init__(self, module, drivers, quick, thorough, func="case", setup=None, mode="asan",
                 targets=(), jobs=None, timeout=60, args=None):
        self.module, self.drivers, self.quick, self.thorough = module, drivers, quick, thorough
        self.func, self.mode, self.extra_targets, self.jobs = func, mode, list(targets), jobs
        self.timeout = timeout
        self.args = args
        self.name = module + "." + func

    def targets(self):
        return {self.mode: list(self.drivers) + self.extra_targets}


class Ctx:
    def __init__(self, stage, seed, tier, wdir):
        self.stage, self.seed, self.tier, self.wdir = stage, seed, tier, wdir
        self.res = Result()
        self.drv = {}
        self.idx = -1
        self.args = stage.args
        self.state = {}
        self.keyn = {}
        self.maxsamples = 2

    def driver(self, name, args=(), env=None, key=None):
        key = key or name
        d = self.drv.get(key)
        if d is None:
            d = Driver(exe_path(self.stage.mode, name), args=args, wdir=self.wdir, env=env, timeout=self.stage.timeout)
            self.drv[key] = d
        return d

    def violation(self, key, msg):
        key = re.sub(r"\s+", "-", key)
        self.keyn[key] = self.keyn.get(key, 0) + 1
        if self.keyn[key] > 4:
            return
        self.res.viols.append((key, self.idx, msg, self.stage.name))

    def check(self, cond, key, msg=""):
        if not cond:
            self.violation(key, msg() if callable(msg) else msg)
        return cond

    def count(self, name, n=1):
        self.res.counts[name] = self.res.counts.get(name, 0) + n

    def high(self, name, n):
        self.res.counts["max_" + name] = max(self.res.counts.get("max_" + name, 0), n)

    def distinct(self, *parts):
        h = hashlib.blake2b(digest_size=8)
        for p in parts:
            if not isinstance(p, (bytes, bytearray)):
                p = repr(p).encode()
            h.update(struct.pack("<I", len(p)))
            h.update(p)
        self.res.distinct.add(h.digest())

    def sample(self, s):
        if len(self.res.samples) < self.maxsamples:
            self.res.samples.append(str(s)[:1500])


def case_rng(seed, stage, i):
    return random.Random("%d|%s|%d" % (seed, stage.name, i))


def _py_worker(a):
    stage, seed, tier, idxs, wdir = a
    shutil.rmtree(wdir, ignore_errors=True)
    os.makedirs(wdir)
    ctx = Ctx(stage, seed, tier, wdir)
    try:
        sys.path.insert(0, os.path.join(ROOT, "checks"))
        mod = importlib.import_module(stage.module)
        fn = getattr(mod, stage.func)
        died = 0
        for i in idxs:
            ctx.idx = i
            for attempt in (0, 1):
                try:
                    ctx.res.evals += 1
                    fn(ctx, case_rng(seed, stage, i), i)
                except DriverDied as e:
                    k = san_key(e.err)
                    if k is None and e.rc is not None and e.rc < 0:
                        k = "signal:%d" % -e.rc
                    if k is None:
                        ctx.res.errors.append("driver died rc=%s: %s" % (e.rc, e.err[-1500:]))
                        return ctx.res
                    ctx.res.viols.append((k, i, e.err[-6000:], stage.name))
                    died += 1
                except DriverHang:
                    if attempt == 0:
                        ctx.res.evals -= 1
                        continue
                    ctx.res.viols.append(("hang", i, "driver gave no answer", stage.name))
                    died += 1
                break
            if died >= 4 or len(ctx.res.viols) > 40:
                break
        fin = getattr(mod, stage.func + "_finish", None)
        if fin:
            fin(ctx)
    except Exception:
        ctx.res.errors.append("case %d: " % ctx.idx + traceback.format_exc())
    finally:
        for d in ctx.drv.values():
            d.close()
        shutil.rmtree(wdir, ignore_errors=True)
    return ctx.res


def run_py_stage(stage, seed, tier, wroot):
    n = stage.quick if tier == "quick" else stage.thorough
    jobs = stage.jobs or NPROC
    args = []
    for j in range(min(jobs, n)):
        args.append((stage, seed, tier, list(range(j, n, jobs)), os.path.join(wroot, "%s-%d" % (stage.name, j))))
    res = Result()
    with multiprocessing.Pool(len(args)) as pool:
        for r in pool.imap_unordered(_py_worker, args):
            res.merge(r)
    return res


# --------------------------------------------------------------------- main
def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == pid:
                    out.append((m.group(2), m.group(3)))
    return out


def run_check(pid, check, tier, seed, replay=None):
    t0 = time.time()
    wroot = os.path.join(WORK, "%s-%d" % (pid, os.getpid()))
    shutil.rmtree(wroot, ignore_errors=True)
    os.makedirs(wroot)
    total = Result()
    stage_counts = {}
    try:
        tgts = {}
        for st in check["stages"]:
            for m, ts in st.targets().items():
                tgts.setdefault(m, [])
                tgts[m] += [t for t in ts if t not in tgts[m]]
        for m, ts in tgts.items():
            build(m, ts)
        tbuild = time.time() - t0
        for st in check["stages"]:
            if replay and replay.get("stage") != st.name:
                continue
            t1 = time.time()
            if replay:
                if st.kind == "c":
                    rc, cur, r, err = _run_c(st, exe_path(st.mode, st.exe), replay["seed"], replay["case"], 1,
                                             os.path.join(wroot, "replay"), st.case_timeout * 6, verbose=True)
                    sys.stdout.write(err)
                    if rc:
                        r.viols.append((san_key(err) or "rc:%d" % rc, cur, err, st.name))
                else:
                    r = _py_worker((st, replay["seed"], replay.get("tier", tier), [replay["case"]], os.path.join(wroot, "replay")))
            elif st.kind == "c":
                r = run_c_stage(st, seed, tier, wroot)
            else:
                r = run_py_stage(st, seed, tier, wroot)
            stage_counts[st.name] = {"evaluations": r.evals, "distinct": len(r.distinct), "wall_s": round(time.time() - t1, 2)}
            if r.evals == 0 and not r.viols:
                r.errors.append("stage %s observed nothing" % st.name)
            total.merge(r)
    finally:
        shutil.rmtree(wroot, ignore_errors=True)
    if replay:
        for v in total.viols:
            print("REPLAYED", v[0], "case", v[1], "\n", v[2])
        for e in total.errors:
            print("ERROR", e)
        return 1 if total.viols else 0

    # decide
    known = known_findings(pid)
    seen_known, fresh = {}, []
    for v in total.viols:
        for k, what in known:
            if v[0] == k:
                seen_known.setdefault(k, what)
                break
        else:
            fresh.append(v)
    need = check.get("need", {})
    for k, minimum in need.items():
        if total.counts.get(k, 0) < minimum and not total.viols:
            total.errors.append("monitor observed too little: %s=%d < %d" % (k, total.counts.get(k, 0), minimum))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": check["level"],
        "coverage": {
            "evaluations": total.evals,
            "distinct_nontrivial": len(total.distinct),
            "rule": check["rule"],
            "samples": total.samples[:6],
            "observed": dict(sorted(total.counts.items())),
            "stages": stage_counts,
            "inconclusive": total.incon[:10],
        },
        "assumptions": check.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    evf = os.path.join(ROOT, "evidence", pid + ".json")
    with open(evf + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(evf + ".tmp", evf)
    for k, what in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    rc = 0
    shown = set()
    for key, case, msg, stage in fresh:
        if key in shown:
            continue
        shown.add(key)
        rdir = os.path.join(WORK, "replays")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%s.json" % (pid, hashlib.md5((key + stage).encode()).hexdigest()[:10]))
        with open(rp, "w") as f:
            json.dump({"property": pid, "stage": stage, "seed": seed, "tier": tier, "case": case, "key": key, "msg": msg}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("   key=%s stage=%s case=%d %s" % (key, stage, case, msg[:1200].replace("\n", "\n   ")))
        rc = 1
        if len(shown) >= 8:
            break
    if rc == 0 and total.errors:
        for e in total.errors[:3]:
            log("ERROR:", e)
        rc = 3
    print("%s %s seed=%d: %d evaluations, %d distinct, %d violation(s), %.1fs (build %.1fs)" % (
        pid, tier, seed, total.evals, len(total.distinct), len(fresh), time.time() - t0, tbuild))
    for k, v in sorted(total.counts.items()):
        print("   %s=%d" % (k, v))
    return rc
