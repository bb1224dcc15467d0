"""command lines, configuration files (C38); file operations (C33)"""
import errno, os, shutil, stat
from util import *

# ---------------------------------------------------------------- options
SHORTS = "abcpvDX0_é"
LONGS = ["help", "port", "p", "po", "gpg-home", "user", "user-name", "-x", "v=1", "a b", "日本"]
def mkspecs(rng, conf=False):
    n = rng.randint(1, 8)
    sh = rng.sample([c for c in SHORTS if ord(c) < 128], min(n, 9))
    lo = rng.sample([l for l in LONGS if not conf or " " not in l], n)
    out = []
    for k in range(n):
        s = sh[k] if rng.random() < .7 else ""
        l = lo[k] if not s or rng.random() < .8 else "-"
        out.append({"s": s, "l": l, "v": rng.random() < .5, "cb": rng.random() < .4, "fail": 0})
        if out[-1]["cb"] and rng.random() < .1:
            out[-1]["fail"] = rng.randint(1, 3)
    return out
def spec_args(specs):
    a = [len(specs)]
    for s in specs:
        a += [s["s"], s["l"], int(s["v"]), int(s["cb"]), s["fail"]]
    return a
class St:
    def __init__(self, specs):
        self.specs, self.hits, self.cb = specs, [], []
        self.n = [0] * len(specs)
        self.val = [None] * len(specs)
        self.cbn = [0] * len(specs)
    def hit(self, k, v):
        """False: the callback was told to fail"""
        self.hits.append(k)
        self.n[k] += 1
        if v is not None:
            self.val[k] = v
        if self.specs[k]["cb"]:
            self.cb.append((k, v if v is not None else self.val[k]))
            self.cbn[k] += 1
            return self.cbn[k] != self.specs[k]["fail"]
        return True
def model_opts(specs, argv, soft):
    """-> (error kind or None, positional, moved, St)"""
    st = St(specs)
    pos, moved = [], []
    i = 0
    def find(key, name):
        for k, s in enumerate(specs):
            if s[key] == name and name not in ("",) and not (key == "l" and s["l"] == "-"):
                return k
    while i < len(argv):
        a = argv[i]
        if len(a) < 2 or a[0] != "-":
            pos.append(i); i += 1; continue
        if a == "--":
            moved.append(i)
            pos += range(i + 1, len(argv))
            break
        if a.startswith("--"):
            k = find("l", a[2:])
            if k is None:
                if soft:
                    pos.append(i); i += 1; continue
                return "VALUEERROR", pos, moved, st
            if specs[k]["v"]:
                if i + 1 >= len(argv):
                    return "VALUEERROR", pos, moved, st
                if not st.hit(k, argv[i + 1]):
                    return "CONNERROR", pos, moved, st
                moved += [i, i + 1]; i += 2
            else:
                if not st.hit(k, None):
                    return "CONNERROR", pos, moved, st
                moved.append(i); i += 1
            continue
        c = 1
        unknown = False
        took = 1
        while c < len(a):
            k = find("s", a[c])
            if k is None:
                unknown = True
                break
            if specs[k]["v"]:
                if c + 1 < len(a):
                    v = a[c + 1:]
                elif i + 1 < len(argv):
                    v = argv[i + 1]; took = 2
                else:
                    return "VALUEERROR", pos, moved, st
                if not st.hit(k, v):
                    return "CONNERROR", pos, moved, st
                break
            if not st.hit(k, None):
                return "CONNERROR", pos, moved, st
            c += 1
        if unknown:
            if not soft:
                return "VALUEERROR", pos, moved, st
            if c > 1:
                return "skip", pos, moved, st
            pos.append(i); i += 1
            continue
        moved += range(i, i + took)
        i += took
    return None, pos, moved, st
def parse_specs(f, specs):
    out = []
    for k in range(len(specs)):
        out.append((int(f[4 * k]), int(f[4 * k + 1]), f[4 * k + 3] if int(f[4 * k + 2]) else None))
    return out, f[4 * len(specs)]
def cblog(specs, cb):
    return b"".join(b"%d:%d:%s\n" % (k, 1 if v is not None else 0, (v or "").encode()) for k, v in cb)
def judge_specs(ctx, specs, f, st, what, earlier=False):
    got, log = parse_specs(f, specs)
    if earlier:
        fo = [g[0] for k, g in enumerate(got) if st.n[k]]
        ctx.check(all(x > 7 for x in fo), "opt-order", lambda: "%r: order of appearance %r after an earlier option with 7" % (what, got))
        if not st.n[len(specs) - 1]:
            ctx.check(got[-1][0] == 7, "opt-order", lambda: "%r: order of an earlier option %r" % (what, got))
            got[-1] = (0,) + got[-1][1:]
    for k, s in enumerate(specs):
        found, count, val = got[k]
        ctx.check((found > 0) == (st.n[k] > 0) and count == st.n[k], "opt-count", lambda: "%r: found %d count %d, seen %d times" % (what, found, count, st.n[k]))
        ctx.check(not st.n[k] or not s["v"] or val == st.val[k].encode(), "opt-value", lambda: "%r: option %r has %r, expected %r" % (what, s, val, st.val[k]))
    last = {k: j for j, k in enumerate(st.hits)}
    order = sorted(last, key=lambda k: last[k])
    fo = [got[k][0] for k in order]
    ctx.check(all(x < y for x, y in zip(fo, fo[1:])), "opt-order", lambda: "%r: order of appearance %r" % (what, got))
    ctx.check(log == cblog(specs, st.cb), "opt-callbacks", lambda: "%r: callbacks %r expected %r" % (what, log, cblog(specs, st.cb)))
def mkargv(rng, specs):
    out = []
    for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 9, 15])):
        r = rng.random()
        s = rng.choice(specs)
        if r < .35 and s["l"] != "-":
            out.append("--" + s["l"])
            if s["v"] and rng.random() < .9:
                out.append(rng.choice(["1", "", "-", "--", "--x", "-a", "va l", "é"]))
        elif r < .65:
            fl = [x["s"] for x in specs if x["s"] and not x["v"]]
            vl = [x["s"] for x in specs if x["s"] and x["v"]]
            a = "-" + "".join(rng.choice(fl) for _ in range(rng.randint(0, 4)) if fl)
            if vl and rng.random() < .5:
                a += rng.choice(vl)
                if rng.random() < .5:
                    a += rng.choice(["1", "=", "-", "-a", "val"])
                    out.append(a)
                else:
                    out.append(a)
                    if rng.random() < .9:
                        out.append(rng.choice(["1", "", "-", "--", "-x", "val"]))
            else:
                out.append(a)
        elif r < .9:
            out.append(rng.choice(["x", "", "-", "file", "a-b", "=", "x--", "é"]))
        elif r < .94:
            out.append("--")
        else:
            out.append(rng.choice(["--zzz", "-z", "--" + (s["l"] + "x"), "--" + s["l"][:-1], "--" + s["l"] + "=1", "-\x01", "--Help"]))
    return out
def opts_case(ctx, rng, i):
    d = ctx.driver("drv_sys")
    specs = mkspecs(rng)
    argv = [rng.choice(["prog", "-prog", ""])] if rng.random() < .1 else ["prog"]
    argv += mkargv(rng, specs)
    mode = rng.randint(0, 3)
    soft = mode in (1, 3)
    what = (argv, [(s["s"], s["l"], s["v"]) for s in specs], soft)
    err, pos, moved, st = model_opts(specs, argv, soft)
    if err == "skip":
        ctx.count("skipped")
        return
    earlier = rng.random() < .3
    r = d.call("opts", mode | 8 * earlier, *spec_args(specs), *argv)
    got = r[0].decode()
    ctx.check(got == (err or "OK"), "opt-result", lambda: "%r: %s, expected %s" % (what, got, err or "OK"))
    order = [int(x) for x in r[2:2 + len(argv)]]
    ctx.check(sorted(order) == list(range(len(argv))), "opt-argv-lost", lambda: "%r: argv is now %r" % (what, order))
    ctx.distinct("o" + repr(what))
    if err:
        ctx.count("opts_refused")
        got, log = parse_specs(r[2 + len(argv):], specs)
        ctx.check(log == cblog(specs, st.cb), "opt-callbacks", lambda: "%r: callbacks %r expected %r" % (what, log, cblog(specs, st.cb)))
        return
    ctx.check(int(r[1]) == len(pos), "opt-newargc", lambda: "%r: %s positional arguments, expected %r" % (what, r[1], pos))
    ctx.check(order[:len(pos)] == list(pos), "opt-positional", lambda: "%r: positional %r, expected %r" % (what, order, pos))
    judge_specs(ctx, specs, r[2 + len(argv):], st, what, earlier)
    ctx.count("opts_parsed")
    ctx.count("opts_seen", len(st.hits))

# ------------------------------------------------------------ conf files
WS = " \t\v\f"
def is_ws(c):
    return c in WS + "\n\r"
def model_conf(specs, text, st):
    import re
    for line in re.split("[\n\r]", text):
        line = line.strip(WS)
        if not line or line[0] == "#":
            continue
        j = 0
        while j < len(line) and line[j] not in WS:
            j += 1
        name, val = line[:j], line[j:].strip(WS)
        k = next((k for k, s in enumerate(specs) if s["l"] == name and name != "-"), None)
        if k is None or bool(val) != specs[k]["v"]:
            return "VALUEERROR"
        if not st.hit(k, val if specs[k]["v"] else None):
            return "CONNERROR"
    return None
def mkconf(rng, specs):
    out = ""
    for _ in range(rng.choice([0, 1, 2, 3, 5, 9])):
        r = rng.random()
        ind = "".join(rng.choice(WS) for _ in range(rng.choice([0, 0, 0, 1, 3])))
        tail = "".join(rng.choice(WS) for _ in range(rng.choice([0, 0, 0, 1, 3])))
        s = rng.choice(specs)
        if r < .75 and s["l"] != "-":
            out += ind + s["l"]
            wrong = rng.random() < .04
            if s["v"] != wrong:
                out += rng.choice([" ", " ", "\t", "  \t "]) + rng.choice(["1", "a b  c", "#x", "/path/to # nothing", "é\xa0x", "\x85v", "\x01", "x\t y", "\x00z", "=", s["l"]])
        elif r < .85:
            out += ind + "#" + rng.choice(["", " ", "c", " help", " " + s["l"] + " 1", "##"])
        elif r < .97:
            out += ind
        else:
            out += ind + rng.choice(["zzz", s["l"] + "x", s["l"][:-1], s["l"].upper() + "Q", "x#", s["l"] + "=1", s["l"] + "\x00"])
        out += tail + rng.choice(["\n", "\n", "\n", "\r\n", "\r", "\n\n"])
    if out and rng.random() < .4:
        out = out.rstrip("\r\n") if rng.random() < .7 else out[:-1]
    return out
def conf_case(ctx, rng, i):
    d = ctx.driver("drv_sys")
    specs = mkspecs(rng, True)
    if rng.random() < .7:
        for k, s in enumerate(specs):
            if s["l"] == "-":
                s["l"] = "long%d" % k
    texts = [mkconf(rng, specs) for _ in range(rng.choice([1, 1, 2, 3]))]
    st = St(specs)
    exp = []
    for t in texts:
        e = model_conf(specs, t, st)
        exp.append(e)
        if e:
            break
    texts = texts[:len(exp)]
    what = (texts, [(s["l"], s["v"]) for s in specs])
    r = d.call("conf", *spec_args(specs), *[t.encode("utf8") for t in texts])
    k = r.index(b"SPECS")
    got = [x.decode() for x in r[:k]]
    ctx.check(got == [e or "OK" for e in exp], "conf-result", lambda: "%r: %r, expected %r" % (what, got, exp))
    ctx.distinct("c" + repr(what))
    if exp[-1]:
        ctx.count("conf_refused")
        g, log = parse_specs(r[k + 1:], specs)
        ctx.check(log == cblog(specs, st.cb), "conf-callbacks", lambda: "%r: callbacks %r expected %r" % (what, log, cblog(specs, st.cb)))
        return
    judge_specs(ctx, specs, r[k + 1:], st, what)
    ctx.count("conf_parsed")
    ctx.count("conf_options", len(st.hits))

# --------------------------------------------------------- file operations
UID = 65534
NAMES = ["a", "b", "cc", "new", "cur", "tmp", "x y", "é", ".hid", "..x", "...", "-f", "a\\b", "n" * 120]
def mktree(rng, base, outs):
    """a random tree; returns the directories"""
    dirs = [base]
    for _ in range(rng.choice([0, 1, 3, 8, 20])):
        dd = rng.choice(dirs)
        p = os.path.join(dd, rng.choice(NAMES))
        if os.path.lexists(p) or len(p) > 1500:
            continue
        r = rng.random()
        if r < .4:
            os.mkdir(p)
            dirs.append(p)
        elif r < .75:
            open(p, "wb").write(os.urandom(0) + bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 10, 4095, 4096, 4097, 9000]) if rng.random() < .1 else rng.choice([0, 1, 10]))))
        elif r < .95:
            os.symlink(rng.choice(outs + [os.path.relpath(rng.choice(outs), dd), "nowhere", ".", "a", p]), p)
        else:
            os.mkfifo(p)
    return dirs
def snap(root):
    out = {}
    for dp, dn, fn in os.walk(root):
        for n in dn + fn:
            p = os.path.join(dp, n)
            s = os.lstat(p)
            rel = os.path.relpath(p, root)
            if stat.S_ISLNK(s.st_mode):
                out[rel] = ("l", os.readlink(p))
            elif stat.S_ISREG(s.st_mode):
                out[rel] = ("f", open(p, "rb").read(), s.st_mode & 0o7777)
            else:
                out[rel] = ("d" if stat.S_ISDIR(s.st_mode) else "p", s.st_mode & 0o7777)
    return out
def chown_all(root):
    os.lchown(root, UID, UID)
    for dp, dn, fn in os.walk(root):
        for n in dn + fn:
            os.lchown(os.path.join(dp, n), UID, UID)
def pick(rng, top, dirs):
    """a path in the tree, existing or not; written in several ways"""
    dd = rng.choice(dirs)
    try:
        l = sorted(os.listdir(dd))
    except OSError:
        l = []
    r = rng.random()
    if l and r < .65:
        p = os.path.join(dd, rng.choice(l))
    elif r < .8:
        p = os.path.join(dd, rng.choice(NAMES))
    elif r < .9:
        p = os.path.join(dd, *[rng.choice(NAMES) for _ in range(rng.randint(1, 4))])
    elif dd != top:
        p = dd
    else:
        p = os.path.join(dd, "a")
    if rng.random() < .1:
        q = p.rfind("/")
        p = p[:q] + rng.choice(["//", "/./"]) + p[q + 1:]
    return p
def ref_rm(p):
    try:
        os.lstat(p)
    except (FileNotFoundError, NotADirectoryError):
        return
    if os.path.islink(p) or not os.path.isdir(p):
        if os.path.lexists(p):
            os.unlink(p)
    else:
        shutil.rmtree(p)
def files_case(ctx, rng, i):
    """every operation against the same operation of another implementation on a twin tree"""
    wd = os.path.join(ctx.wdir, "f%d" % i)
    shutil.rmtree(wd, ignore_errors=True)
    long_ = rng.random() < .2
    root = os.path.join(wd, "r" * 240 if long_ else "r")
    os.makedirs(root)
    try:
        files_run(ctx, rng, root, long_)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
def files_run(ctx, rng, root, long_):
    A = root + "/A"
    twin = root + "/B"
    os.makedirs(A + "/t")
    os.makedirs(A + "/out/keep")
    open(A + "/out/keep/precious", "wb").write(b"precious")
    open(A + "/out/f", "wb").write(b"outside")
    dirs = mktree(rng, A + "/t", [A + "/out", A + "/out/f", A + "/out/keep"])
    chown_all(root)
    d = ctx.driver("drv_sys")
    if not getattr(d, "dropped", False):
        r = d.call("drop", ctx.wdir, UID)
        if r[0] != b"OK":
            raise RuntimeError("cannot drop privileges")
        d.dropped = True
    old_umask = os.umask(0o022)
    try:
        for step in range(rng.randint(1, 8)):
            one_op(ctx, rng, d, root, A, twin, dirs)
            dirs = [dp for dp, _, _ in os.walk(A + "/t")] or [A + "/t"]
            if not os.path.isdir(A + "/t"):
                break
    finally:
        os.umask(old_umask)
OPS = ["rm_rf"] * 5 + ["empty"] * 2 + ["mkdirs"] * 3 + ["mkdir", "copy", "copy", "touch", "rename", "rename", "write", "write", "read", "read", "remove", "unlink", "rmdir",
    "exists", "is_file", "is_dir", "access", "each", "each", "stat", "readlink", "symlink", "fault", "fault", "fault"]
def one_op(ctx, rng, d, root, A, twin, dirs):
    op = rng.choice(OPS)
    p = pick(rng, A + "/t", dirs)
    sb = rng.randint(0, 1)
    if op == "fault":
        return fault_op(ctx, rng, d, root, A, p, dirs, sb)
    q = pick(rng, A + "/t", dirs)
    data = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 300])))
    if op == "rm_rf" and rng.random() < .3:
        p = A + "/t"
    if op in ("empty", "each") and rng.random() < .5:
        p = rng.choice(dirs)
    if op == "empty" and os.path.realpath(p) != os.path.normpath(p) or op == "rm_rf" and os.path.realpath(os.path.dirname(p)) != os.path.normpath(os.path.dirname(p)):
        return      # the way to the directory may lie in the directory
    extra, ref = [], None
    before = snap(A)
    # the reference, on a twin with the same names
    os.rename(A, twin)
    shutil.copytree(twin, A, symlinks=True, copy_function=lambda s, t: os.mkfifo(t) if stat.S_ISFIFO(os.lstat(s).st_mode) else shutil.copy2(s, t))
    chown_all(A)
    want = None
    # a fifo would block an open
    blocks = False
    for x in (p, q):
        try:
            blocks |= stat.S_ISFIFO(os.stat(x).st_mode)
        except OSError:
            pass
    if blocks and op in ("copy", "touch", "write", "read"):
        shutil.rmtree(twin)
        return
    isd = os.path.isdir(p)
    try:
        if op == "rm_rf":
            ref_rm(p)
        elif op == "empty":
            for n in os.listdir(p):
                ref_rm(os.path.join(p, n))
        elif op == "mkdirs":
            mode = rng.choice([0o700, 0o777, 0o750]); extra = [mode]
            if not isd:
                # every new directory gets the mode
                made, x = [], p
                while not os.path.lexists(x):
                    made.append(x); x = os.path.dirname(x)
                os.makedirs(p, exist_ok=True)
                for m in made:
                    if os.path.isdir(m):
                        os.chmod(m, mode & ~0o022)
        elif op == "mkdir":
            soft = rng.randint(0, 1); extra = [0o700, soft]
            if not (soft and isd):
                os.mkdir(p, 0o700)
        elif op == "copy":
            mode = rng.choice([0o600, 0o666, 0o644]); extra = [q, mode]
            if os.path.exists(q) and os.path.exists(p) and os.path.samefile(p, q):
                return
            b = open(p, "rb").read()
            fd = os.open(q, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, mode)
            os.write(fd, b); os.close(fd)
        elif op == "touch":
            fd = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o666); os.close(fd)
        elif op == "rename":
            extra = [q, rng.randint(0, 1)]
            os.rename(p, q)
        elif op == "write":
            extra = [data, rng.randint(0, 1)]
            fd = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o666); os.write(fd, data); os.close(fd)
        elif op == "read":
            pre = b"pre" if rng.random() < .5 else b""
            sz = rng.choice([0, 1, 3, 4, 11, 13, 1000, 5000, 20000]); extra = [pre, sz, int(rng.random() < .2 and sz > 0)]
            want = pre + open(p, "rb").read()
        elif op == "remove":
            os.rmdir(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
        elif op == "unlink":
            os.unlink(p)
        elif op == "rmdir":
            os.rmdir(p)
        elif op == "exists":
            extra = [rng.randint(0, 1)]; want = os.path.exists(p)
        elif op == "is_file":
            want = os.path.exists(p) and not isd
        elif op == "is_dir":
            want = isd
        elif op == "access":
            k = rng.choice(["fr", "fw", "frw", "dr", "dw", "drw"]); c = rng.randint(0, 1); extra = [k, c]
            if k[0] == "f":
                want = os.path.exists(p) if not isd else None
            elif os.path.exists(p) or not c:
                want = isd
            else:
                try:
                    os.mkdir(p, 0o770 & ~0o022); want = True
                except OSError:
                    want = False
        elif op == "each":
            extra = [rng.choice([0, 0, 0, 1, 2, 3])]
            want = sorted((n, os.path.isdir(os.path.join(p, n)) and not os.path.islink(os.path.join(p, n))) for n in os.listdir(p))
        elif op == "stat":
            ex = rng.randint(0, 1); extra = [ex]
            if ex:
                try:
                    os.stat(p); want = True
                except (FileNotFoundError, NotADirectoryError):
                    want = False
            else:
                os.stat(p); want = True
        elif op == "readlink":
            want = os.readlink(p)
        elif op == "symlink":
            t = rng.choice(["nowhere", "a", "../x y", "z" * 300]); extra = [t]
            os.symlink(t, p)
        failed = None
    except OSError as e:
        failed = e
    finally:
        ref = snap(A)
        shutil.rmtree(A)
        os.rename(twin, A)
    chown_all(A)
    r = d.call("f", op, sb, p, *extra)
    got = snap(A)
    short = lambda x: x.replace(root, "R") if isinstance(x, str) else x
    what = (op, sb, short(p), [short(e) for e in extra])
    ctx.count("op_" + op)
    ctx.distinct("f" + op + short(p) + repr(sorted(before)) )
    err = r[r.index(b"END") + 1] if op == "each" else r[0]
    fine = err == b"OK"
    if op == "each":
        ents = r[:r.index(b"END")]
        seen = sorted((ents[3 * k + 1].decode(), ents[3 * k + 2] == b"1") for k in range(len(ents) // 3))
        ctx.check(all(ents[3 * k].decode().replace("/./", "/").replace("//", "/").rstrip("/") == p.replace("/./", "/").replace("//", "/").rstrip("/") for k in range(len(ents) // 3)), "each-base", "%r: %r" % (what, ents[:3]))
        if failed is None:
            # "." and ".." of a directory are never reported; a hook which fails ends the walk
            lim = extra[0]
            if lim and lim <= len(want):
                ctx.check(not fine and err == b"CONNERROR" and len(seen) == lim, "each-stop", "%r: error %r after %d files" % (what, err, len(seen)))
            else:
                ctx.check(fine and seen == want, "each-files", lambda: "%r: saw %r, expected %r" % (what, seen, want))
        else:
            ctx.check(not fine, "each-no-error", "%r: no error for %r" % (what, failed))
        ctx.check(got == before, "each-changed", "%r changed files" % (what,))
        return
    if op == "read" and failed is None and extra[2] and err == b"FIXEDSIZE":
        cap = max(extra[1], len(extra[0]))
        ctx.check(len(want) >= cap, "read-fixed-refused", "%r: %d bytes into %d" % (what, len(want), cap))
        ctx.count("fixed_refused")
        return
    if op == "access":
        if want is not None:
            ctx.check((r[1] == b"1") == want, "access", "%r says %r" % (what, r))
        ctx.check(got == ref, "access-tree", lambda: "%r: %s" % (what, tdiff(got, ref)))
        return
    if op in ("exists", "is_file", "is_dir") and failed is None:
        if not fine:
            # names which cannot be looked up
            ctx.check(not want, "lookup-error", "%r: error %r" % (what, r))
            ctx.count("lookup_errors")
        else:
            ctx.check((r[1] == b"1") == want, "lookup", "%r says %r, expected %r" % (what, r, want))
        return
    ctx.check(fine == (failed is None), "file-result", lambda: "%r: %r, expected %s" % (what, r[:1], failed or "success"))
    if op == "rm_rf" and failed is not None:
        ctx.check(all(before.get(k) == v for k, v in got.items()), "rm-rf-changed", lambda: "%r" % (what,))
    else:
        if op == "copy" and failed is not None:
            # what a failed copy leaves at its target is not specified
            for t in (got, ref, before):
                x = os.path.relpath(os.path.realpath(extra[0]), os.path.realpath(A)); t.pop(x, None)
        ctx.check(got == ref, "file-tree", lambda: "%r: %s" % (what, tdiff(got, ref)))
    if op == "read" and failed is None:
        ctx.check(r[1] == want, "file-read", lambda: "%r: %r.. expected %r.." % (what, r[1][:40], want[:40]))
        ctx.count("bytes_read", len(want))
    if op == "stat" and failed is None:
        ctx.check((r[1] == b"1") == want, "file-stat", "%r: %r" % (what, r))
    if op == "readlink" and failed is None:
        ctx.check(r[1].decode() == want and r[2] == b"0", "file-readlink", lambda: "%r: %r, expected %r" % (what, r[1], want))
    if op in ("rm_rf", "empty") and failed is None:
        ctx.count("removed", len(before) - len(got))
        ctx.high("most_removed", len(before) - len(got))
def tdiff(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out.append("%s: %.60r, expected %.60r" % (k[-60:], a.get(k), b.get(k)))
    return "; ".join(out[:4])
def fault_op(ctx, rng, d, root, A, p, dirs, sb):
    """failing and short writes, failing directory creations: no success without the whole effect"""
    op = rng.choice(["write", "copy", "mkdirs", "rm_rf", "rename"])
    before = snap(A)
    mode = rng.choice([3, 3, 4, 5, 5] + [8] * (op in ("write", "copy")))
    at = rng.randint(1, 6)
    data = bytes(rng.randrange(256) for _ in range(rng.choice([1, 5, 300, 70000])))
    extra, src = [], None
    if os.path.realpath(os.path.dirname(p)) != os.path.normpath(os.path.dirname(p)):
        return
    if os.path.islink(p) or (os.path.exists(p) and not os.path.isfile(p) and op in ("write", "copy")):
        return
    if op == "write":
        at = 1 if mode == 8 else at
        extra = [data, 0]
    elif op == "copy":
        src = A + "/out/src"
        open(src, "wb").write(data); os.lchown(src, UID, UID)
        before = snap(A)
        extra = [p, 0o600]
        at = 1 if mode == 8 else at
    elif op == "mkdirs":
        for k in range(rng.randint(0, 3)):
            p += "/n%d" % k
        if os.path.realpath(os.path.dirname(p)) != os.path.normpath(os.path.dirname(p)):
            return
        extra = [0o700]
    elif op == "rename":
        extra = [p + "2", 1]
        if os.path.lexists(p + "2"):
            return
    d.call("fs", at, mode)
    r = d.call("f", op, sb, src or p, *extra)
    ops = int(d.call("fsops")[0])
    d.call("fs", 0, 0)
    got = snap(A)
    fine = r[0] == b"OK"
    rel = os.path.relpath(p, A)
    hit = mode == 5 or ops >= at
    what = (op, sb, p.replace(root, "R"), len(data), "fault mode %d at %d of %d" % (mode, at, ops))
    ctx.count("faults_hit" if hit else "faults_missed")
    if fine:
        if op in ("write", "copy"):
            ctx.check(got.get(rel, ())[1:2] == (data,), "fault-false-success", lambda: "%r reported success; the file holds %.40r" % (what, got.get(rel)))
        elif op == "mkdirs":
            ctx.check(os.path.isdir(p), "fault-false-success", "%r reported success, there is no directory" % (what,))
        elif op == "rm_rf":
            ctx.check(not os.path.lexists(p), "fault-false-success", "%r reported success, the file is there" % (what,))
        elif op == "rename":
            ctx.check(not os.path.lexists(p) and os.path.lexists(p + "2"), "fault-false-success", "%r reported success" % (what,))
        if mode == 8:
            ctx.check(not ops, "fault-swallowed", lambda: "%r reported success though the file could not be closed" % (what,))
        ctx.check(mode == 5 or ops < at or op == "write" and ops > at, "fault-swallowed", lambda: "%r reported success" % (what,)) if op in ("rename", "copy") else None
    else:
        if mode == 5 and op in ("write", "copy"):
            ctx.check(not os.path.isdir(os.path.dirname(p)), "short-write-refused", "%r: %r" % (what, r[0]))
        if op == "write" and mode in (3, 8) and rel not in before:
            ctx.count("failed_creations")
            ctx.check(rel not in got, "write-leftover", lambda: "%r failed; left %r" % (what, got[rel]))
        if op == "mkdirs" and mode == 3:
            ctx.count("failed_mkdirs")
            ctx.check(got == before, "mkdirs-leftover", lambda: "%r failed; left %s" % (what, tdiff(got, before)))
        if op == "rename":
            ctx.check(got == before, "rename-leftover", lambda: "%r failed; left %s" % (what, tdiff(got, before)))
    for k, v in before.items():
        if op in ("write", "copy") and k == rel or op == "rename" and (k == rel or k.startswith(rel + "/")) or op == "rm_rf" and (k == rel or k.startswith(rel + "/")):
            continue
        ctx.check(got.get(k) == v, "fault-other-file", lambda: "%r changed %r" % (what, k))

# ------------------------------------------------------------ path names
def names_case(ctx, rng, i):
    d = ctx.driver("drv_sys")
    t = "".join(rng.choice(["/", "/", "a", ".", "..", "bc", "\\", "x y", "é"]) for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 9])))
    r = [x.decode() for x in d.call("names", t)]
    if t == "":
        want = (".", ".")
    else:
        vol = "/" if t[0] == "/" else ""
        rest = t[len(vol):].rstrip("/")
        if not rest:
            want = (vol, vol)
        else:
            j = rest.rfind("/") + 1
            base, dd = rest[j:], rest[:j].rstrip("/")
            want = ((vol + dd) or ".", base)
    ctx.check((r[0], r[1]) == want, "path-parts", "%r: dirname %r basename %r, expected %r" % (t, r[0], r[1], want))
    ctx.check((r[2] == "1") == t.startswith("/"), "path-abs", "%r: isabs %s" % (t, r[2]))
    ctx.count("names"); ctx.distinct("n" + t)

# ----------------------------------------------------------------- locks
def locks_case(ctx, rng, i):
    """two processes and several holders: at most one has the lock"""
    wd = os.path.join(ctx.wdir, "l%d" % i)
    shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    d = ctx.driver("drv_sys")
    held = {}
    import fcntl
    mine = None
    p = wd + "/lock"
    try:
        os.chmod(wd, 0o777)
        for step in range(rng.randint(3, 12)):
            s = rng.randint(0, 3)
            r = rng.random()
            if s in held:
                d.call("unlock", s); held.pop(s)
            elif r < .2:
                if mine:
                    os.close(mine); mine = None
                else:
                    mine = os.open(p, os.O_RDWR | os.O_CREAT, 0o666)
                    try:
                        fcntl.flock(mine, fcntl.LOCK_EX | fcntl.LOCK_NB)
                        ctx.check(not held, "lock-shared", "a second process got the lock held by %r" % held)
                    except BlockingIOError:
                        ctx.check(bool(held), "lock-stale", "a released lock is still held")
                        os.close(mine); mine = None
            else:
                free = not held and mine is None
                blk = int(free and rng.random() < .3)
                x = d.call("lock", s, p, blk, rng.randint(0, 1))
                ctx.check(x[0] == b"OK", "lock-error", "%r" % x)
                ctx.check((x[1] == b"1") == free, "lock-exclusive", "lock %s while held by %r, other process %r" % (x[1], held, mine))
                if x[1] == b"1":
                    held[s] = 1
                else:
                    d.call("unlock", s)
                ctx.count("lock_tries"); ctx.count("lock_got" if free else "lock_refused")
        for s in held:
            d.call("unlock", s)
        ctx.distinct("l%d" % i)
    finally:
        if mine:
            os.close(mine)
        shutil.rmtree(wd, ignore_errors=True)
