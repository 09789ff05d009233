"""Shared machinery: build libo from /repo's working tree with AddressSanitizer, run the driver on
scripts, run TLC on generated behaviours and recorded traces, report and write evidence."""
import concurrent.futures, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = max(2, min(8, os.cpu_count() or 2))
CFLAGS = ["-std=c99", "-fPIC", "-DLINUX_VERSION", "-D_XOPEN_SOURCE=500", "-g", "-O1", "-w",
          "-fno-strict-aliasing", "-fno-omit-frame-pointer", "-fsanitize=address"]
# the same scripts also run on a build without the sanitizer, whose allocator hands out other garbage
PLAIN = ["-std=c99", "-fPIC", "-DLINUX_VERSION", "-D_XOPEN_SOURCE=500", "-O2", "-w", "-fno-strict-aliasing"]
ASAN = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=190:detect_stack_use_after_return=0:handle_segv=1:symbolize=1"


class Broken(Exception):
    """The check itself could not do its work (reported as an error exit, never as a violation)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


# ------------------------------------------------------------------ build
def _sources():
    out = []
    for d in (REPO, os.path.join(REPO, "contrib")):
        for f in sorted(os.listdir(d)):
            if f.endswith((".c", ".h", ".l", ".y", ".r")) and not re.match(r"osc_.*(parser|scanner)\.[ch]$", f):
                out.append(os.path.join(d, f))
    return out


def _hash(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def basenames():
    mk = open(os.path.join(REPO, "Makefile")).read()
    names = re.search(r"^LIBO_BASENAMES\s*=\s*(.*)$", mk, re.M).group(1).split()
    return names + ["osc_scanner", "osc_expr_scanner", "osc_legacy_scanner",
                    "osc_parser", "osc_expr_parser", "osc_legacy_parser"]


def build():
    """Build the library and the driver from the current working tree; returns the driver's path."""
    os.makedirs(BUILD, exist_ok=True)
    drvsrc = sorted(os.path.join(VERIF, "drv", f) for f in os.listdir(os.path.join(VERIF, "drv")) if f.endswith((".c", ".h")))
    src = _sources()
    key = _hash(src, " ".join(CFLAGS + PLAIN)) + "-" + _hash(drvsrc)
    dest = os.path.join(BUILD, "drv-" + key)
    exe = os.path.join(dest, "drv")
    if os.path.exists(exe):
        return exe
    tmp = tempfile.mkdtemp(prefix="b-", dir=BUILD)
    try:
        os.makedirs(os.path.join(tmp, "contrib"))
        for f in src:
            shutil.copy(f, os.path.join(tmp, os.path.relpath(f, REPO)))
        def gen(n):
            r = sh(["bison", "-p", "osc_%sparser_" % n, "-d", "-o", "osc_%sparser.c" % n, "osc_%sparser.y" % n], cwd=tmp)
            r2 = sh(["flex", "-o", "osc_%sscanner.c" % n, "--prefix=osc_%sscanner_" % n,
                     "--header-file=osc_%sscanner.h" % n, "osc_%sscanner.l" % n], cwd=tmp)
            return r.returncode, r2.returncode, r.stdout + r2.stdout
        for n in ("", "expr_", "legacy_"):
            a, b, o = gen(n)
            if a or b:
                raise Broken("generating parsers failed: " + o)
        jobs = []
        for flags, suf in ((CFLAGS, ""), (PLAIN, "p")):
            for b in basenames():
                jobs.append((os.path.join(tmp, b + ".c"), os.path.join(tmp, b + suf + ".o"), flags, suf))
            for f in drvsrc:
                if f.endswith(".c"):
                    jobs.append((f, os.path.join(tmp, "drv_" + os.path.basename(f)[:-2] + suf + ".o"),
                                 flags + ["-D_GNU_SOURCE", "-I", tmp] + (["-DPLAIN"] if suf else []), suf))
        def comp(j):
            s, o, flags, _ = j
            r = sh(["clang"] + flags + ["-c", "-o", o, s], cwd=tmp)
            return r.returncode, s, r.stdout
        # longest first
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            for rc, s, o in ex.map(comp, jobs):
                if rc:
                    raise Broken("compiling %s failed:\n%s" % (s, o[-3000:]))
        for suf in ("", "p"):
            r = sh(["clang"] + ([] if suf else ["-fsanitize=address"]) + ["-o", os.path.join(tmp, "drv" + suf)] + [j[1] for j in jobs if j[3] == suf] + ["-lm"], cwd=tmp)
            if r.returncode:
                raise Broken("linking failed:\n" + r.stdout[-3000:])
        for j in jobs:
            os.unlink(j[1])
        try:
            os.rename(tmp, dest)
        except OSError:
            if not os.path.exists(exe):
                raise
        # keep only the newest few builds
        olds = sorted((d for d in os.listdir(BUILD) if d.startswith("drv-")), key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in olds[:-6]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


# ------------------------------------------------------------------ driver
class Crash:
    def __init__(self, script, k, kind, log):
        self.script, self.k, self.kind, self.log = script, k, kind, log
    def brief(self):
        m = re.search(r"ERROR: AddressSanitizer:? (\S+)", self.log)
        fr = [x for x in re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+)", self.log) if x.startswith("osc")]
        return "%s%s at op %d%s" % (self.kind, (" " + m.group(1)) if m else "", self.k, (" in " + " < ".join(fr[:4])) if fr else "")


def _run_chunk(exe, scripts, timeout):
    """Run scripts (lists of op dicts) in one driver process; restart after a crash."""
    results = [None] * len(scripts)
    crashes = []
    i = 0
    while i < len(scripts):
        lines = []
        for s in scripts[i:]:
            # the closing reset releases everything the script made
            lines.extend(json.dumps(o, separators=(",", ":")) for o in s)
            lines.append('{"op":"reset"}')
        env = dict(os.environ, ASAN_OPTIONS=ASAN, MALLOC_PERTURB_="85")
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        try:
            out, err = p.communicate(("\n".join(lines) + "\n").encode(), timeout=timeout)
            kind = "crash"
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            kind = "hang"
        text = out.decode("latin-1")
        outl = [l[2:] for l in text.split("\n") if l.startswith("@ ")]
        if text and not text.endswith("\n") and outl and text.rsplit("\n", 1)[-1].startswith("@ "):
            outl.pop()
        pos = 0
        done = i
        for s in scripts[i:]:
            need = 1 + len(s)
            if len(outl) - pos < need:
                break
            results[done] = [json.loads(x) for x in outl[pos:pos + need - 1]]
            pos += need
            done += 1
        if done == len(scripts):
            if p.returncode != 0 and kind == "crash":
                crashes.append(Crash(scripts[-1], len(scripts[-1]), "crash at exit", err.decode("latin-1")[-6000:]))
            break
        k = max(0, len(outl) - pos)
        e = err.decode("latin-1")
        if p.returncode == 98:
            kind = "hang"
        if p.returncode == 97:
            kind = "driver gave up"
        c = Crash(scripts[done], k, kind, e[-6000:])
        crashes.append(c)
        partial = [json.loads(x) for x in outl[pos:]]
        results[done] = ("crash", partial, c)
        i = done + 1
        if len(crashes) >= 6 or sum(1 for x in crashes if x.kind == "hang") >= 2:
            for j in range(i, len(scripts)):
                results[j] = ("skipped", [], None)
            break
    return results, crashes


def run_driver(exe, scripts, timeout=600, jobs=None):
    """Returns (results, crashes). results[i] is the list of output events of scripts[i], or ("crash", ...)."""
    jobs = jobs or JOBS
    n = max(1, min(jobs, len(scripts)))
    size = (len(scripts) + n - 1) // n
    chunks = [scripts[i:i + size] for i in range(0, len(scripts), size)] or [[]]
    res, crashes = [], []
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        for r, c in ex.map(lambda ch: _run_chunk(exe, ch, timeout), chunks):
            res.extend(r)
            crashes.extend(c)
    return res, crashes


# ------------------------------------------------------------------ TLC
class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.ok = "Model checking completed. No error has been found." in out
    def lines(self, tag):
        """Values printed with PrintT(<<"tag", ToJson(x)>>)."""
        res = []
        pre = '<<"%s", "' % tag
        for l in self.out.split("\n"):
            if l.startswith(pre) and l.endswith('">>'):
                res.append(json.loads(_unescape(l[len(pre):-3])))
        return res


def _unescape(s):
    return s.replace('\\\\', '\0').replace('\\"', '"').replace('\0', '\\')


def tlc(module, cfg=None, env=None, timeout=800, workers=1, extra=(), heap="3g", stack="512m"):
    cfg = cfg or module + ".cfg"
    meta = tempfile.mkdtemp(prefix="tlc-")
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4", "-Xmx" + heap, "-Xss" + stack,
           "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC", "-metadir", meta, "-workers", str(workers),
           "-config", os.path.join(SPEC, cfg), "-noGenerateSpecTE"] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=e, cwd=meta, timeout=timeout)
        return TlcResult(p.returncode, p.stdout)
    except subprocess.TimeoutExpired:
        raise Broken("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


# ------------------------------------------------------------------ trace validation
def _culprit(module, events, idx, env, cfg, out):
    """Bisect the scripts idx to one on which the trace spec cannot be evaluated."""
    def fails(part):
        fd, path = tempfile.mkstemp(prefix="bisect-")
        with os.fdopen(fd, "w") as f:
            for i in part:
                f.write('{"op":"reset"}\n')
                for ev in events[i]:
                    f.write(json.dumps(ev, separators=(",", ":")) + "\n")
        try:
            return tlc(module, cfg=cfg, env=dict(env, TRACE=path), timeout=300)
        finally:
            os.unlink(path)
    while len(idx) > 1:
        a, b = idx[:len(idx) // 2], idx[len(idx) // 2:]
        idx = a if not fails(a).ok else b
    r = fails(idx)
    if r.ok:
        raise Broken("trace spec %s failed, but on no single script:\n%s" % (module, out[-3000:]))
    k = min(len(events[idx[0]]) - 1, max(0, r.distinct - 2))
    return [(idx[0], k, "no behaviour of the specification: " + r.out[-1500:])]


def validate(module, events_by_script, env=None, timeout=800, jobs=None, cfg=None):
    """Validate recorded scripts against spec/<module>.tla (a trace spec).  Each script is prefixed by a
    reset event.  Returns (mismatches, stats); a mismatch is (script index, event index, expected)."""
    jobs = jobs or JOBS
    n = len(events_by_script)
    if n == 0:
        return [], dict(states=0, events=0, scripts=0)
    total = sum(len(s) + 1 for s in events_by_script)
    k = max(1, min(jobs, (total + 199) // 200))
    # balance by number of events
    chunks = [[] for _ in range(k)]
    load = [0] * k
    order = sorted(range(n), key=lambda i: -len(events_by_script[i]))
    for i in order:
        j = load.index(min(load))
        chunks[j].append(i)
        load[j] += len(events_by_script[i]) + 1
    tmp = tempfile.mkdtemp(prefix="trace-")
    def one(j):
        path = os.path.join(tmp, "t%d.ndjson" % j)
        where = []
        with open(path, "w") as f:
            for i in chunks[j]:
                f.write('{"op":"reset"}\n')
                where.append((i, -1))
                for x, ev in enumerate(events_by_script[i]):
                    f.write(json.dumps(ev, separators=(",", ":")) + "\n")
                    where.append((i, x))
        e = dict(env or {}, TRACE=path)
        r = tlc(module, cfg=cfg, env=e, timeout=timeout)
        if not r.ok:
            mm = [(where[v["l"] - 1][0], where[v["l"] - 1][1], v["exp"]) for v in r.lines("MISMATCH")]
            if not mm:
                # the observed values fall outside what the specification can evaluate: find the script
                if "java.lang.OutOfMemoryError" in r.out or "Error: " not in r.out:
                    raise Broken("trace spec %s failed:\n%s" % (module, r.out[-3000:]))
                mm = _culprit(module, events_by_script, chunks[j], e, cfg, r.out)
            return mm, r
        if r.distinct != len(where) + 1:
            raise Broken("trace spec %s consumed %d of %d events" % (module, r.distinct - 1, len(where)))
        mm = []
        for v in r.lines("MISMATCH"):
            i, x = where[v["l"] - 1]
            mm.append((i, x, v["exp"]))
        return mm, r
    try:
        mism, st = [], 0
        with concurrent.futures.ThreadPoolExecutor(k) as ex:
            for mm, r in ex.map(one, range(k)):
                mism.extend(mm)
                st += r.distinct
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    mism.sort(key=lambda m: (m[0], m[1]))
    return mism, dict(states=st, events=total - n, scripts=n)


# ------------------------------------------------------------------ reporting
class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.thorough = self.tier == "thorough"
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.parts = {}
        self.nviol = 0
        self.known = []
        self.known_seen = set()
        self.assumptions = []
        self.viol_lines = []
        kf = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(kf):
            for l in open(kf):
                l = l.strip()
                if l.startswith("{"):
                    d = json.loads(l)
                    if d.get("property") == pid and d.get("status") == "known":
                        self.known.append(d)
        self._exe = None

    @property
    def exe(self):
        if self._exe is None:
            self._exe = build()
        return self._exe

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def add(self, part, **kw):
        d = self.parts.setdefault(part, {})
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                d[k] = d.get(k, 0) + v
            else:
                d[k] = v

    def sample(self, x):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(x)

    def is_known(self, script, k, got, exp):
        for d in self.known:
            if "match" in d:
                ev = script[k] if k is not None and 0 <= k < len(script) else {}
                if all(ev.get(a) == b for a, b in d["match"].items()):
                    self.known_seen.add(d["id"])
                    return True
        return False

    def violation(self, what, script, k, got=None, exp=None, log=None):
        """Record one violation (script is the list of op dicts; k the failing index)."""
        if self.is_known(script, k, got, exp):
            return
        self.nviol += 1
        if self.nviol > 20:
            return
        d = os.path.join(VERIF, "build", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.pid, self.nviol))
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, what=what, script=script, failing=k, got=got, expected=exp, log=log), f, indent=1)
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        print("  %s" % what)
        if k is not None and 0 <= k < len(script):
            print("  op: %s" % json.dumps(script[k])[:1500])
        if got is not None:
            print("  got:      %s" % json.dumps(got)[:1500])
        if exp is not None:
            print("  expected: %s" % json.dumps(exp)[:1500])
        if log:
            print("  " + "\n  ".join(log.split("\n")[:30]))
        sys.stdout.flush()

    # -- the two conformance directions
    def replay_crashes(self, results, scripts):
        """Report crashes that repeat when the script runs alone."""
        bad = set()
        tried = 0
        for i, r in enumerate(results):
            if isinstance(r, tuple):
                bad.add(i)
                if r[0] == "skipped" or tried >= 5:
                    continue
                tried += 1
                again, cr = _run_chunk(self.exe, [scripts[i]], 120)
                if cr:
                    self.violation(cr[0].brief(), scripts[i], cr[0].k, log=cr[0].log)
                else:
                    # the crash needs the state left by earlier scripts of the process: report with them only if it repeats
                    lo = max(0, i - 400)
                    again, cr = _run_chunk(self.exe, scripts[lo:i + 1], 300)
                    if cr:
                        flat = [o for s in scripts[lo:i + 1] for o in [{"op": "reset"}] + s]
                        self.violation(cr[0].brief() + " (after earlier scripts)", flat, None, log=cr[0].log)
        return bad

    def trace_check(self, part, module, scripts, env=None, timeout=800, cfg=None, strip=None):
        """Run scripts on the real code, validate the recorded traces against the trace spec.  strip reduces
        an event to what the trace spec looks at."""
        t = time.time()
        strip = strip or (lambda e: e)
        def validate(module, evs, **kw):
            return globals()["validate"](module, [[strip(e) for e in s] for s in evs], **kw)
        res, _ = run_driver(self.exe, scripts)
        bad = self.replay_crashes(res, scripts)
        self.other_build(module, scripts, res, bad, validate, env, timeout, cfg)
        idx = [i for i in range(len(scripts)) if i not in bad]
        mm, st = validate(module, [res[i] for i in idx], env=env, timeout=timeout, cfg=cfg)
        seen = set()
        for si, k, exp in mm:
            i = idx[si]
            if i in seen:
                continue
            seen.add(i)
            if len(seen) > 12:
                break
            # re-run the rejected script alone before reporting
            again, cr = _run_chunk(self.exe, [scripts[i]], 120)
            if cr:
                self.violation(cr[0].brief(), scripts[i], cr[0].k, log=cr[0].log)
                continue
            mm2, _ = validate(module, [again[0]], env=env, timeout=timeout, cfg=cfg)
            if mm2:
                k2, exp2 = mm2[0][1], mm2[0][2]
                self.violation("the recorded step is not one the specification allows", scripts[i], k2, got=again[0][k2], exp=exp2)
                continue
            # the rejection may need what earlier scripts of the process left behind
            lo = max(0, i - 60)
            again, cr = _run_chunk(self.exe, scripts[lo:i + 1], 300)
            if not cr:
                mm2 = [m for m in validate(module, again, env=env, timeout=timeout, cfg=cfg)[0]]
                if mm2:
                    j, k2, exp2 = mm2[0]
                    flat = [o for s in scripts[lo:lo + j] for o in s + [{"op": "reset"}]] + scripts[lo + j][:k2 + 1]
                    self.violation("the recorded step is not one the specification allows (after earlier scripts)", flat, len(flat) - 1,
                                   got=again[j][k2], exp=exp2)
                    continue
            print("note: rejection of script %d did not repeat" % i)
        self.cov["traces_validated_against_impl"] += st["scripts"]
        self.cov["states"] += st["states"]
        self.cov["transitions"] += st["events"]
        self.add(part, scripts=len(scripts), events=st["events"], spec=module, seconds=round(time.time() - t, 1))
        if scripts:
            self.sample(dict(part=part, script=scripts[self.rng.randrange(len(scripts))][:8]))
        return res

    def other_build(self, module, scripts, res, bad, validate, env, timeout, cfg):
        """The same scripts on the build without the sanitizer: what it does differently must be a behaviour of the specification too."""
        plain = self.exe + "p"
        res2, _ = run_driver(plain, scripts)
        odd = [i for i in range(len(scripts)) if i not in bad and res2[i] != res[i]]
        self.cov["second_build"] = self.cov.get("second_build", 0) + len(scripts)
        shown = 0
        for i in odd:
            if shown >= 5:
                break
            lo = i
            again, cr = _run_chunk(plain, [scripts[i]], 120)
            if not cr and again[0] == res[i]:
                # it needs what earlier scripts of the process left behind
                lo = max(0, i - 400)
                again, cr = _run_chunk(plain, scripts[lo:i + 1], 300)
            flat = [o for s in scripts[lo:i] for o in s + [{"op": "reset"}]]
            if cr:
                shown += 1
                self.violation(cr[0].brief() + " (build without sanitizer)", flat + scripts[i], len(flat) + (cr[0].k or 0) if lo == i else None, log=cr[0].log)
            elif again[-1] != res[i]:
                mm = validate(module, [again[-1]], env=env, timeout=timeout, cfg=cfg)[0]
                if mm:
                    shown += 1
                    k, exp = mm[0][1], mm[0][2]
                    self.violation("the recorded step is not one the specification allows (build without sanitizer)", flat + scripts[i], len(flat) + k,
                                   got=again[-1][k], exp=exp)

    def model_check(self, part, module, cfg=None, env=None, timeout=800, workers=None, tags=(), extra=()):
        """Run TLC exhaustively on a specification; a failure here is an error of the check."""
        t = time.time()
        r = tlc(module, cfg=cfg, env=env, timeout=timeout, workers=workers or JOBS, extra=extra, heap="8g")
        if not r.ok:
            raise Broken("TLC found an error in %s:\n%s" % (module, r.out[-4000:]))
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.add(part, spec=module, distinct_states=r.distinct, states_generated=r.generated, seconds=round(time.time() - t, 1))
        return r

    def behaviours(self, part, module, env=None, timeout=800, cfg=None, limit=None):
        """Scripts TLC prints while exploring spec/<module>.tla (one per transition of its state graph)."""
        r = self.model_check(part, module, cfg=cfg, env=env, timeout=timeout)
        b = r.lines("BEH")
        if not b:
            raise Broken("no behaviours from " + module)
        self.add(part, behaviours=len(b))
        if limit and len(b) > limit:
            b = self.rng.sample(b, limit)
        return b

    def finish(self, level="model_checking"):
        for d in self.known:
            # a known finding is checked on every run by its own replay
            print("KNOWN-FINDING: property=%s %s" % (self.pid, d["what"]))
        cov = dict(self.cov)
        cov["parts"] = self.parts
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=self.nviol)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d violation(s), %d traces, %d states, %.1fs" % (self.pid, self.tier, self.nviol,
              cov["traces_validated_against_impl"], cov["states"], time.time() - self.t0))
        sys.exit(1 if self.nviol else 0)
