"""Shared machinery: native build of /repo's working tree, fork-server client,
bounded exhaustive explorer, findings, evidence."""
import collections, hashlib, json, multiprocessing as mp, os, re, shutil
import struct, subprocess, sys, tempfile, time, traceback, atexit, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
NW = int(os.environ.get("VERIF_JOBS", "8"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Infra(Exception):
    pass


# ------------------------------------------------------------------ build --
def _bdir():
    for d in (os.path.join(VERIF, ".build"),):
        try:
            os.makedirs(d, exist_ok=True)
            return d
        except OSError:
            pass
    return tempfile.mkdtemp(prefix="uasmbuild")


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def repo_objects():
    t = open(os.path.join(REPO, "gccmod.inc")).read()
    return ["main"] + re.findall(r"\$\(OUTD\)/(\w+)\.o", t)


VARIANTS = {
    # name: (compile flags, link flags, extra harness sources)
    "plain": (["-O1", "-g1"], [], []),
    "asan": (["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer",
              "-fno-common-off"], ["-fsanitize=address"], []),
    "fault": (["-O1", "-g1", "-U_FORTIFY_SOURCE", "-DFAULT"], ["FAULTWRAP"], ["fault.c"]),
}


def build(variant="plain", quiet=True):
    """Compile the working tree of /repo as a native program plus the fork
    server; objects are cached by the content they are made from."""
    cfl, lfl, extra = VARIANTS[variant]
    cfl = [f for f in cfl if f != "-fno-common-off"]
    d = _bdir()
    hh = hashlib.sha256()
    hdirs = [REPO + "/H", REPO, HARN + "/compat"]
    for hd in hdirs:
        for f in sorted(os.listdir(hd)):
            if f.endswith((".h", ".inc")) or hd == REPO + "/H":
                p = os.path.join(hd, f)
                if os.path.isfile(p):
                    hh.update(f.encode()); hh.update(open(p, "rb").read())
    hkey = hh.hexdigest()
    # -D__UNIX__: the Linux flavour of the sources; default (signed) char as in
    # the MinGW build that is shipped and tested.
    # fixed date/time so that two builds compare equal
    base = ["gcc", "-c", "-w", "-fcommon", "-D__UNIX__", "-DNDEBUG", "-I" + REPO + "/H",
            "-I" + HARN + "/compat", "-include", HARN + "/compat/win_limits.h", "-Wno-builtin-macro-redefined",
            '-D__DATE__="Jan 01 2026"', '-D__TIME__="00:00:00"'] + cfl
    jobs = []
    objs = []
    for m in repo_objects():
        src = os.path.join(REPO, m + ".c")
        fl = list(base)
        if m == "dbgcv":
            fl += ["-funsigned-char", "-include", HARN + "/compat/dbgcv_prelude.h"]
        if m == "main":
            fl += ["-Dmain=uasm_main"]
        key = _sha(open(src, "rb").read(), hkey, m, " ".join(fl))
        o = os.path.join(d, "o-" + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((fl + [src], o))
    for m in ["server.c"] + extra:
        src = os.path.join(HARN, m)
        fl = ["gcc", "-c", "-w"] + cfl
        key = _sha(open(src, "rb").read(), m, " ".join(fl))
        o = os.path.join(d, "o-" + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((fl + [src], o))
    procs = []

    def reap(p):
        pr, tmp, o, src = p
        out = pr.communicate()[0]
        if pr.returncode:
            raise Infra("compile failed: %s\n%s" % (src, out.decode(errors="replace")[-2000:]))
        os.rename(tmp, o)

    for cmd, o in jobs:
        tmp = o + ".%d.tmp" % os.getpid()
        procs.append((subprocess.Popen(cmd + ["-o", tmp], stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT), tmp, o, cmd[-1]))
        if len(procs) >= NW + 2:
            reap(procs.pop(0))
    for p in procs:
        reap(p)
    lf = ["-Wl,--wrap=time"]       # the clock stands still (server.c)
    for f in lfl:
        if f == "FAULTWRAP":
            w = open(os.path.join(HARN, "fault.c")).read()
            lf += ["-Wl,--wrap=" + s for s in re.findall(r"__wrap_(\w+)\s*\(", w)]
        else:
            lf.append(f)
    exe = os.path.join(d, "srv-" + variant + "-" + _sha(*objs, " ".join(lf)))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["gcc", "-o", tmp] + objs + lf + ["-lm"], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if r.returncode:
            raise Infra("link failed: " + r.stdout.decode(errors="replace")[-2000:])
        os.rename(tmp, exe)
    # keep the cache small: drop objects not used for a day
    now = time.time()
    for f in os.listdir(d):
        p = os.path.join(d, f)
        try:
            if p in objs or p == exe:
                os.utime(p)
            elif now - os.stat(p).st_mtime > 6 * 3600:
                os.unlink(p)
        except OSError:
            pass
    return exe


# ----------------------------------------------------------------- server --
class Res:
    __slots__ = ("status", "exit", "sig", "console", "files", "events", "fired", "kept")

    def text(self):
        return re.sub(rb"\x1b\[[0-9;]*m", b"", self.console).decode("latin1")

    def obj(self):
        for k, v in self.files.items():
            if k.lower().endswith((".o", ".obj", ".bin", ".exe")):
                return v
        return None

    def err(self):
        return self.files.get("t.err", b"").decode("latin1")


_scratch = []


def _cleanup():
    for pid, s in _scratch:
        if pid == os.getpid():
            shutil.rmtree(s, ignore_errors=True)


def scratch_dir():
    root = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    s = tempfile.mkdtemp(prefix="uasmv-", dir=root)
    if not any(p == os.getpid() for p, _ in _scratch):
        atexit.register(_cleanup)
    _scratch.append((os.getpid(), s))
    return s


class Srv:
    def __init__(self, exe, env=None):
        self.exe, self.env = exe, env
        self.dir = scratch_dir()
        self.start()

    def start(self):
        self.p = subprocess.Popen([self.exe, self.dir], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=self.env,
                                  preexec_fn=lambda: None)

    def close(self):
        try:
            self.p.stdin.close(); self.p.wait(5)
        except Exception:
            self.p.kill()
        shutil.rmtree(self.dir, ignore_errors=True)

    def job(self, args, files, cpu_ms=10000, env_uasm=None, env_include=None, fault=(0, 0)):
        flags = 0
        argv = [env_uasm or ""]
        if env_uasm is not None:
            flags |= 1
        if env_include is not None:
            flags |= 2
            argv.append(env_include)
        argv += args
        b = [struct.pack("<III", flags, cpu_ms, len(argv))]
        for a in argv:
            a = a.encode("latin1") if isinstance(a, str) else a
            b.append(struct.pack("<I", len(a))); b.append(a)
        b.append(struct.pack("<I", len(files)))
        for n, c in files.items():
            n = n.encode(); c = c.encode("latin1") if isinstance(c, str) else c
            b.append(struct.pack("<I", len(n))); b.append(n)
            b.append(struct.pack("<I", len(c))); b.append(c)
        b.append(struct.pack("<II", *fault))
        b = b"".join(b)
        try:
            self.p.stdin.write(struct.pack("<I", len(b)) + b)
            self.p.stdin.flush()
            n = self._rd(4)
            d = self._rd(struct.unpack("<I", n)[0])
        except (BrokenPipeError, EOFError):
            raise Infra("fork server died")
        r = Res()
        r.status, r.events, r.fired = struct.unpack_from("<iII", d, 0)
        r.exit = os.WEXITSTATUS(r.status) if os.WIFEXITED(r.status) else None
        r.sig = os.WTERMSIG(r.status) if os.WIFSIGNALED(r.status) else None
        o = 12
        n, = struct.unpack_from("<I", d, o); o += 4
        r.console = d[o:o + n]; o += n
        nf, = struct.unpack_from("<I", d, o); o += 4
        r.files = {}
        for _ in range(nf):
            n, = struct.unpack_from("<I", d, o); o += 4
            nm = d[o:o + n].decode("latin1"); o += n
            n, = struct.unpack_from("<I", d, o); o += 4
            r.files[nm] = d[o:o + n]; o += n
        r.kept = set()
        for k in files:
            if k in r.files and r.files[k] == (files[k].encode("latin1") if isinstance(files[k], str) else files[k]):
                del r.files[k]
                r.kept.add(k)
        return r

    def _rd(self, n):
        d = self.p.stdout.read(n)
        if d is None or len(d) != n:
            raise EOFError
        return d

    def asm(self, src, opts=("-bin",), name="t.asm", files=None, **kw):
        f = dict(files or {})
        f[name] = src
        return self.job(["-q"] + list(opts) + [name], f, **kw)


# --------------------------------------------------------------- findings --
class Findings:
    """known-findings.txt: lines
    finding: property=<id> key=<glob over violation keys> :: what fails
    fixed: property=<id> <commit> <what failed>"""

    def __init__(self, prop):
        self.items = []
        p = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(p):
            for ln in open(p):
                m = re.match(r"finding: property=(\w+) key=(\S+) :: (.*)", ln.strip())
                if m and m[1] == prop:
                    self.items.append([m[2], m[3], 0])

        # known-findings-<id>.txt: name <tab> what fails <tab> the keys that fail
        self.exact = {}
        p = os.path.join(VERIF, "known-findings-%s.txt" % prop)
        self.globs = list(self.items)
        if os.path.exists(p):
            for ln in open(p):
                f = ln.rstrip("\n").split("\t")
                if len(f) == 3:
                    it = [f[0], f[1], 0]
                    self.items.append(it)
                    for k in f[2].split(" "):
                        self.exact[k] = it

    def match(self, key):
        if key in self.exact:
            self.exact[key][2] += 1
            return self.exact[key]
        for it in self.globs:
            if "*" in it[0]:
                rx = "".join(".*" if c == "*" else re.escape(c) for c in it[0])
                ok = re.fullmatch(rx, key)
            else:
                ok = it[0] == key
            if ok:
                it[2] += 1
                return it
        return None


class V(dict):
    """A violation: key (stable identity of the failing case), what, and
    anything useful for the replay file."""

    def __init__(self, key, what, **kw):
        super().__init__(key=re.sub(r"\s+", "_", key), what=what, **kw)


def _short(x, n=6000):
    if isinstance(x, bytes):
        return x[:n].hex()
    if isinstance(x, str):
        return x[:n]
    if isinstance(x, dict):
        return {str(k): _short(v, n) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_short(v, n) for v in x]
    if isinstance(x, (int, float, bool)) or x is None:
        return x
    return repr(x)[:n]


# --------------------------------------------------------------- explorer --
class Ctx:
    """What a case evaluator gets: servers (by variant), counters, outcomes."""

    def __init__(self, exes):
        self.exes = exes
        self.srvs = {}
        self.n = collections.Counter()
        self.outcomes = set()
        self.samples = []

    def srv(self, variant="plain"):
        if variant not in self.srvs:
            env = dict(os.environ)
            if variant == "asan":
                env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:quarantine_size_mb=1:malloc_context_size=0:" + ("handle_segv=2" if os.environ.get("ASAN_SEGV") else "handle_segv=0:allow_user_segv_handler=1")
            self.srvs[variant] = Srv(self.exes[variant], env)
        return self.srvs[variant]

    def outcome(self, *x):
        if len(self.outcomes) < 2000000:
            self.outcomes.add(hash(x))

    def sample(self, s, limit=3):
        if len(self.samples) < limit:
            self.samples.append(_short(s, 1500))

    def close(self):
        for s in self.srvs.values():
            s.close()


def _worker(k, nw, exes, gen, fn, q, limit, deadline):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    ctx = Ctx(exes)
    viol = []
    cnt = 0
    capped = False
    try:
        for i, case in enumerate(gen()):
            if i % nw != k:
                continue
            if deadline and cnt % 16 == 0 and time.time() > deadline:
                capped = True
                break
            cnt += 1
            v = fn(ctx, case)
            if v:
                for one in (v if isinstance(v, list) else [v]):
                    one.setdefault("case", _short(case))
                    one["_case"] = case
                    viol.append(one)
                if len(viol) >= limit:
                    capped = True
                    break
        q.put((k, cnt, ctx.n, ctx.outcomes, ctx.samples, viol, capped, None))
    except BaseException:
        q.put((k, cnt, ctx.n, ctx.outcomes, ctx.samples, viol, capped, traceback.format_exc()))
    finally:
        ctx.close()
        _cleanup()


class Check:
    def __init__(self, prop, level="model_checking", variants=("plain",)):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.tier = TIER
        self.thorough = TIER == "thorough"
        self.find = Findings(prop)
        self.exes = {}
        self.n = collections.Counter()
        self.outcomes = set()
        self.samples = []
        self.viol = []
        self.cases = 0
        self.cover = {}
        self.assume = []
        self.capped = []
        try:
            for v in variants:
                self.exes[v] = build(v)
        except Infra as e:
            print("ERROR: " + str(e), flush=True)
            sys.exit(2)
        print("%s: built %s in %.1fs" % (prop, ",".join(variants), time.time() - self.t0), flush=True)

    def ctx(self):
        return Ctx(self.exes)

    def explore(self, name, gen, fn, limit=400, nw=None, budget=None):
        """Evaluate fn(ctx, case) on every case gen() yields.  fn returns None
        or V(...) (or a list of V).  A budget (seconds) marks the run capped."""
        t = time.time()
        nw = nw or NW
        q = mp.Queue()
        dl = t + budget if budget else None
        ps = [mp.Process(target=_worker, args=(k, nw, self.exes, gen, fn, q, limit, dl)) for k in range(nw)]
        for p in ps:
            p.start()
        tot = 0
        errs = []
        found = []
        for _ in ps:
            k, cnt, n, oc, sm, viol, capped, err = q.get()
            tot += cnt
            self.n.update(n)
            self.outcomes |= {(name, o) for o in oc}
            self.samples += [{"part": name, "case": s} for s in sm[:2]]
            found += viol
            if err:
                errs.append(err)
            if capped and not viol:
                self.capped.append("%s: time budget reached after %d cases in worker %d" % (name, cnt, k))
        for p in ps:
            p.join()
        if errs:
            print("ERROR: check crashed in %s:\n%s" % (name, errs[0]), flush=True)
            sys.exit(2)
        # replay each violation alone, on a fresh server, before believing it
        keep = []
        ctx = Ctx(self.exes)
        seen = set()
        again = {}
        nlisted = 0
        for v in found:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            listed = self.find.match(v["key"])
            nlisted += bool(listed)
            if listed or os.environ.get("VERIF_DUMP"):
                v.pop("_case")
                self.viol.append((v, bool(listed)))
                continue
            if len(keep) < 5 + int(os.environ.get("VERIF_SHOW", "20")):
                case = v.pop("_case")
                rc = repr(case)
                if rc not in again:
                    v2 = fn(ctx, case)
                    again[rc] = v2 if isinstance(v2, list) else [v2] if v2 else []
                v2 = again[rc]
                if not any(x["key"] == v["key"] for x in v2):
                    print("ERROR: violation did not replay: %s %s" % (v["key"], v["what"][:300]), flush=True)
                    ctx.close()
                    sys.exit(2)
                keep.append(v)
                self.viol.append((v, False))
        ctx.close()
        self.cases += tot
        self.cover.setdefault("parts", {})[name] = {"cases": tot, "wall_s": round(time.time() - t, 1)}
        print("%s: %s: %d cases, %d violation(s) (%d listed), %.1fs" % (
            self.prop, name, tot, len(seen), nlisted, time.time() - t), flush=True)
        return tot

    def add(self, v):
        """record a violation found outside explore()"""
        self.viol.append((v, self.find.match(v["key"]) is not None))

    def finish(self, rule, states=None, transitions=None, validated=None, **cov):
        new = [v for v, known in self.viol if not known]
        if os.environ.get("VERIF_DUMP"):      # for the author of the findings file
            with open(os.environ["VERIF_DUMP"], "w") as f:
                for v, known in self.viol:
                    f.write("%s\t%s\n" % (v["key"], v["what"].replace("\t", " ").replace("\n", " ")))
        for glob, what, hits in self.find.items:
            if hits:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, what), flush=True)
            else:
                print("note: listed finding not seen in this run: %s" % glob, flush=True)
        c = dict(self.cover)
        c.update(cov)
        c["rule"] = rule
        if self.level != "model_checking":
            c["evaluations"] = self.cases
            c["distinct_nontrivial"] = len(self.outcomes)
        c["counters"] = dict(self.n)
        c["samples"] = self.samples[:8] or ["none"]
        if self.level == "model_checking":
            c["states"] = states if states is not None else len(self.outcomes)
            c["transitions"] = transitions if transitions is not None else self.n.get("steps", self.cases)
            c["traces_validated_against_impl"] = validated if validated is not None else self.cases
        c["exhaustive"] = not self.capped
        if self.capped:
            c["caps"] = self.capped
        c["known_findings_seen"] = [i[0] for i in self.find.items if i[2]]
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level,
              "coverage": c, "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        rd = os.path.join(VERIF, "replays")
        if new:
            os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(new[:int(os.environ.get("VERIF_SHOW", "20"))]):
            p = os.path.join(rd, "%s-%d.json" % (self.prop, i))
            with open(p, "w") as f:
                json.dump({k: _short(x) for k, x in v.items() if k != "_case"}, f, indent=1)
            print("  %s: %s" % (v["key"][:200], v["what"][:400]))
            print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        print("%s: %s; %d cases, %d distinct outcomes, %.1fs" % (
            self.prop, "VIOLATED" if new else "held", self.cases, len(self.outcomes), time.time() - self.t0))
        _cleanup()
        sys.exit(1 if new else 0)


# ------------------------------------------------------------------ batches --
ERRRE = re.compile(r"^t\.asm\((\d+)\) : (?:Error|Fatal error) (A\d+): (.*)$", re.M)


def batch(ctx, pre, stmts, post, opts=("-bin", "-nomlib"), variant="plain", files=None, maxrun=6):
    """Assemble many independent statements (each may span lines) in one
    source; statements with errors are dropped and the rest run again.
    -> (dict idx -> message, Res of the last run, list of surviving idx)"""
    live = list(range(len(stmts)))
    bad = {}
    prel = pre.count("\n")
    r = None
    for _ in range(maxrun):
        starts = []
        ln = prel + 1
        own = {}
        for i in live:
            n = stmts[i].count("\n") + 1
            for k in range(n):
                own[ln + k] = i
            ln += n
        src = pre + "".join(stmts[i] + "\n" for i in live) + post
        r = ctx.srv(variant).asm(src, list(opts) + ["-e=1000000"], files=files)
        ctx.n["steps"] += len(live)
        if r.sig or r.exit == 0:
            return bad, r, live
        new = {}
        for m in ERRRE.finditer(r.text()):
            i = own.get(int(m[1]))
            if i is not None:
                new.setdefault(i, m[2] + " " + m[3])
        if not new:
            return bad, r, live
        bad.update(new)
        live = [i for i in live if i not in new]
    return bad, r, live


def one(ctx, pre, stmt, post, opts, image, variant="plain", files=None):
    r = ctx.srv(variant).asm(pre + stmt + "\n" + post, opts, files=files)
    ctx.n["steps"] += 1
    if r.sig:
        return "signal %d" % r.sig, r
    if r.exit != 0:
        return None, r
    return image(r), r


def batch_judge(ctx, tag, pre, stmts, refs, post, opts=("-bin", "-nomlib"), image=None, variant="plain",
                files=None, note=None):
    """refs[i]: the bytes the statement must produce, or None if it must be an
    error.  The batch is only a fast path: every disagreement is decided by
    assembling that statement alone."""
    image = image or (lambda r: r.obj() or b"")
    opt = {i for i, x in enumerate(refs) if isinstance(x, tuple)}   # (bytes,): these bytes, or an error
    refs = [x[0] if isinstance(x, tuple) else x for x in refs]
    bad, r, live = batch(ctx, pre, stmts, post, opts, variant, files)
    sus = set()
    want_err = {i for i, x in enumerate(refs) if x is None}
    if r.sig or r.exit != 0:
        sus = set(range(len(stmts)))
    else:
        sus |= (want_err ^ set(bad)) - opt
        img = image(r)
        exp = b"".join(refs[i] or b"" for i in live)
        if img != exp:
            if len(img) == len(exp):
                o = 0
                for i in live:
                    n = len(refs[i] or b"")
                    if img[o:o + n] != (refs[i] or b""):
                        sus.add(i)
                    o += n
            else:
                sus |= set(live)
    for i, x in enumerate(refs):
        ctx.outcome(tag, x, i in bad)
    ctx.n["accepted"] += len(live)
    ctx.n["rejected"] += len(bad)
    out = []
    if sus:
        ctx.n["singles"] += len(sus)
    for i in sorted(sus):
        got, r1 = one(ctx, pre, stmts[i], post, opts, image, variant, files)
        if got is None and i in opt:
            continue
        if got != refs[i]:
            out.append(V(tag + ":" + re.sub(r"\b[lk]\d+\b", "l", stmts[i]), "%s: gave %s, expected %s%s" % (
                stmts[i], got.hex() if isinstance(got, bytes) else got or "an error (%s)" % r1.text()[:150],
                refs[i].hex() if refs[i] is not None else "an error", (" [" + note(i) + "]") if note else ""),
                source=pre + stmts[i] + "\n" + post))
        if len(out) > 40:
            break
    if sus and not out:
        out.append(V(tag + ":batch", "statements right one by one, wrong together: %s" % r.text()[:300],
                     source=pre + "\n".join(stmts) + "\n" + post))
    return out or None


def chunks(it, n):
    b = []
    for x in it:
        b.append(x)
        if len(b) == n:
            yield b
            b = []
    if b:
        yield b
