"""Common machinery: build drivers from /repo's working tree, run them, validate recorded
traces with TLC, run TLC on design models, write evidence, report violations."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
SPEC = os.path.join(VERIF, "spec")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")


class CheckError(Exception):
    """The machinery itself failed: no verdict."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ----------------------------------------------------------------- building
ASAN = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address"]
CONFIGS = {
    "asan": dict(cxx="g++", flags=["-std=c++14", "-DNDEBUG"] + ASAN),
    "opt": dict(cxx="g++", flags=["-std=c++14", "-DNDEBUG", "-g", "-O2", "-fstack-protector-all"]),
    "asan17": dict(cxx="g++", flags=["-std=c++17"] + ASAN),
    "clang": dict(cxx="clang++", flags=["-std=c++14", "-DNDEBUG", "-g", "-O2", "-fsanitize=address", "-fno-omit-frame-pointer"]),
    "nomem": dict(cxx="g++", flags=["-std=c++14", "-DNDEBUG"] + ASAN, undef=["HAVE_MEMMEM", "HAVE_MMAP"]),
    "tsan": dict(cxx="g++", flags=["-std=c++14", "-DNDEBUG", "-g", "-O1", "-fsanitize=thread"], link=["-lpthread"]),
    "tsanclang": dict(cxx="clang++", flags=["-std=c++17", "-DNDEBUG", "-g", "-O1", "-fsanitize=thread"], link=["-lpthread"]),
    "clangO3": dict(cxx="clang++", flags=["-std=c++14", "-DNDEBUG", "-g", "-O3"]),
    "O3": dict(cxx="g++", flags=["-std=c++17", "-DNDEBUG", "-g", "-O3"]),
    "plain": dict(cxx="g++", flags=["-std=c++14", "-DNDEBUG", "-g", "-O1"]),
}


def source_hash(extra):
    h = hashlib.sha256()
    for d in (SRC, os.path.join(VERIF, "harness"), os.path.join(VERIF, "harness", "config")):
        for f in sorted(os.listdir(d)):
            p = os.path.join(d, f)
            if os.path.isfile(p) and f.endswith((".h", ".cpp", ".c", ".hpp", ".in")):
                h.update(f.encode() + b"\0" + open(p, "rb").read() + b"\0")
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def build(driver, srcs, config="asan", defs=(), libs=(), incs=(), wrap=(), raw=()):
    """Compile /verif/harness/<driver>.cpp with the given library sources of /repo."""
    c = CONFIGS[config]
    key = source_hash([driver, srcs, config, c, list(defs), list(libs), list(incs), list(wrap), list(raw)])
    d = os.path.join(BUILD, "%s-%s-%s" % (driver, config, key))
    exe = os.path.join(d, driver)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".%s-%s.lock" % (driver, config)), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for old in os.listdir(BUILD):
            if old.startswith("%s-%s-" % (driver, config)) and old != os.path.basename(d):
                shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
        t = time.time()
        tmp = d + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        cfgdir = os.path.join(VERIF, "harness", "config")
        if c.get("undef"):
            cfgdir = os.path.join(tmp, "config")
            os.makedirs(cfgdir)
            txt = open(os.path.join(VERIF, "harness", "config", "config.h")).read()
            for u in c["undef"]:
                txt = re.sub(r"#define %s 1" % u, "/* %s off */" % u, txt)
            open(os.path.join(cfgdir, "config.h"), "w").write(txt)
        inc = ["-I" + cfgdir, "-I" + SRC, "-I" + os.path.join(VERIF, "harness")] + ["-I" + i for i in incs]
        base = [c["cxx"], "-w", "-DHAVE_CONFIG_H"] + c["flags"] + list(defs) + inc
        files = [os.path.join(VERIF, "harness", driver + ".cpp")] + \
                [s if s.startswith("/") else os.path.join(SRC, s) for s in srcs]
        nraw = len(files)
        files += [os.path.join(VERIF, "harness", f) for f in raw]      # compiled without sanitizers
        objs = [os.path.join(tmp, "%d.o" % i) for i in range(len(files))]

        def one(i):
            b = base if i < nraw else [x for x in base if not x.startswith("-fsanitize")]
            return subprocess.run(b + ["-c", files[i], "-o", objs[i]], capture_output=True, text=True)
        with ThreadPoolExecutor(NCPU) as ex:
            for i, r in enumerate(ex.map(one, range(len(files)))):
                if r.returncode:
                    raise CheckError("compile failed: %s\n%s" % (files[i], r.stderr[-4000:]))
        def link():
            return subprocess.run([c["cxx"]] + c["flags"] + objs + ["-o", os.path.join(tmp, driver)] +
                           ["-Wl,--wrap=" + w for w in wrap] + list(libs) + c.get("link", []), capture_output=True, text=True)
        r = link()
        if r.returncode and "undefined reference" in r.stderr:      # code may have moved to another source file
            for f in sorted(os.listdir(SRC)):
                p = os.path.join(SRC, f)
                if f.endswith(".cpp") and p not in files:
                    o = os.path.join(tmp, f + ".o")
                    if subprocess.run(base + ["-c", p, "-o", o], capture_output=True).returncode == 0:
                        objs.append(o)
            r = link()
        if r.returncode:
            raise CheckError("link failed: %s\n%s" % (driver, r.stderr[-4000:]))
        for o in objs:
            os.unlink(o)
        os.rename(tmp, d)
        log("built %s [%s] in %.1fs" % (driver, config, time.time() - t))
    return exe


# ----------------------------------------------------------------- running drivers
RUNENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0:max_malloc_fill_size=4096:malloc_fill_byte=190",
              TSAN_OPTIONS="exitcode=66:halt_on_error=1", UBSAN_OPTIONS="halt_on_error=1", LC_ALL="C")
MAXCRASH = 3


def run_sessions(exe, sessions, script_of, args=(), timeout=600, env=None):
    """Run sessions (each: list of script lines incl. header and final 'end').  Returns for each
    session the list of parsed result objects; a crash or hang yields a last object with err set."""
    n = len(sessions)
    if n == 0:
        return []
    k = max(1, min(NCPU, n // 20 + 1))
    chunks = [list(range(i, n, k)) for i in range(k)]
    results = [None] * n

    def work(idx):
        pos, crashes = 0, 0
        while pos < len(idx):
            text = "".join(script_of(sessions[i]) for i in idx[pos:])
            try:
                r = subprocess.run([exe] + list(args), input=text, capture_output=True, text=True, timeout=timeout,
                                   env=env or RUNENV, errors="replace")
                rc, out, errt = r.returncode, r.stdout, r.stderr
            except subprocess.TimeoutExpired as e:
                rc, errt = 97, "timeout"
                out = e.stdout.decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
            lines = out.split("\n")
            if lines and lines[-1] == "":
                lines.pop()
            elif lines:
                lines.pop()          # partial line
            q = 0
            while pos < len(idx):
                s = sessions[idx[pos]]
                need = len(s["ops"])
                got = lines[q:q + need]
                objs = [json.loads(x) for x in got]
                q += len(got)
                if len(got) < need:
                    if rc == -9:
                        raise CheckError("driver was killed (out of memory?)")
                    if rc == 96:
                        raise CheckError("driver rejected its script: " + errt[-500:])
                    if rc == 0:
                        raise CheckError("driver stopped early without an error")
                    objs.append({"err": "HANG" if rc == 97 else "CRASH", "ret": 0, "detail": errt[-3000:], "rc": rc})
                    results[idx[pos]] = objs
                    pos += 1
                    crashes += 1
                    break
                results[idx[pos]] = objs
                pos += 1
            else:
                if rc not in (0,) and q == len(lines):
                    raise CheckError("driver exit %d: %s" % (rc, errt[-1500:]))
            if crashes >= MAXCRASH:
                return
    with ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(work, c) for c in chunks]:
            f.result()
    return results


# ----------------------------------------------------------------- TLC
def tlc(spec, cfg_text, env=None, workers=None, args=(), timeout=800, heap="6g", quiet=True, simulate=None):
    """Run TLC; returns dict(rc, out, distinct, generated, status, trace)."""
    d = tempfile.mkdtemp(prefix="vftlc-")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        open(os.path.join(d, "M.cfg"), "w").write(cfg_text)
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", TLAJARS, "tlc2.TLC", "-metadir", os.path.join(d, "md"),
               "-workers", str(workers or NCPU), "-config", "M.cfg"] + list(args)
        if simulate:
            cmd += ["-simulate", simulate]
        cmd.append(spec + ".tla")
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout, env=e)
            rc, out = r.returncode, r.stdout + r.stderr
        except subprocess.TimeoutExpired as x:
            out = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
            rc = -1
        m = None
        for m in re.finditer(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out):
            pass
        gen, dist = (int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))) if m else (0, 0)
        if rc == 0:
            status = "ok"
        elif rc == -1:
            status = "timeout"
        elif rc == 11 or "Deadlock reached" in out:
            status = "deadlock"
        elif rc in (12, 13) or "is violated" in out:
            status = "violated"
        else:
            status = "error"
        return dict(rc=rc, out=out, generated=gen, distinct=dist, status=status)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def last_state(out):
    """variables of the last state of TLC's error trace (integers only)"""
    blocks = re.split(r"^State \d+:.*$", out, flags=re.M)
    if len(blocks) < 2:
        return {}
    return {k: int(v) for k, v in re.findall(r"^\s*(?:/\\ )?(\w+) = (-?\d+)\s*$", blocks[-1], flags=re.M)}


BATCH_BYTES = 6_000_000


def validate(spec, consts, traces, workdir, label, extra_cfg="", key="ev"):
    """Validate traces (list of lists of events) with a trace spec that takes env TRACE and has
    variables sid, l.  Returns (stats, rejection or None)."""
    cfg = "SPECIFICATION Spec\n"
    if consts:
        cfg += "CONSTANTS\n" + "".join("  %s %s\n" % (k, v if v.startswith("<-") else "= " + v) for k, v in consts.items())
    cfg += extra_cfg
    batches, cur, size = [], [], 0
    for k, t in enumerate(traces):
        line = json.dumps({key: t}, separators=(",", ":")) + "\n"
        if cur and size + len(line) > BATCH_BYTES:
            batches.append(cur)
            cur, size = [], 0
        cur.append((k, line))
        size += len(line)
    if cur:
        batches.append(cur)
    if len(batches) < NCPU and len(traces) >= 400:      # spread over the processors
        allb = [x for b in batches for x in b]
        batches = [allb[i::NCPU] for i in range(NCPU)]

    def one(b):
        if stop:
            return b, None
        nd = os.path.join(workdir, "%s-%d.ndjson" % (label, b[0][0]))
        with open(nd, "w") as f:
            f.writelines(x[1] for x in b)
        r = tlc(spec, cfg, env={"TRACE": nd}, workers=1, heap="3g")
        os.unlink(nd)
        if r["status"] != "ok":
            stop.append(1)
        return b, r
    stop = []
    rej, st = None, dict(states=0, transitions=0, traces=0)
    with ThreadPoolExecutor(NCPU) as ex:
        for b, r in ex.map(one, batches):
            if r is None:
                continue
            total = sum(len(traces[k]) for k, _ in b)
            if r["status"] == "ok":
                if r["distinct"] != total + len(b):
                    raise CheckError("%s: TLC saw %d states, expected %d" % (label, r["distinct"], total + len(b)))
                st["states"] += r["distinct"]
                st["transitions"] += total
                st["traces"] += len(b)
            elif r["status"] == "deadlock":
                v = last_state(r["out"])
                if "sid" not in v:
                    raise CheckError("cannot parse TLC rejection:\n" + r["out"][-3000:])
                rej = rej or dict(sid=b[v["sid"] - 1][0], l=v["l"], out=r["out"])
            elif rej is None:
                raise CheckError("%s: TLC %s\n%s" % (label, r["status"], r["out"][-4000:]))
    return st, rej


def tlaset(xs):
    return "{" + ", ".join('"%s"' % x for x in sorted(xs)) + "}"


# ----------------------------------------------------------------- one check
class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vfchk-%s-" % pid)
        self.stats = dict(states=0, transitions=0, traces=0)
        self.parts = []
        self.samples = []
        self.violations = []

    def add(self, label, st, **extra):
        for k in ("states", "transitions", "traces"):
            self.stats[k] += st.get(k, 0)
        p = dict(part=label, **st)
        p.update(extra)
        self.parts.append(p)
        log("  %s: %s" % (label, {k: v for k, v in p.items() if k != "part"}))

    def violation(self, label, data):
        os.makedirs(OUT, exist_ok=True)
        path = os.path.join(OUT, "%s-%s-%d.json" % (self.pid, re.sub(r"\W+", "_", label), len(self.violations)))
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, part=label, **data), f, indent=1)
        self.violations.append(path)
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)

    def known(self, tag):
        """is the failing history listed in known_findings.txt?  (prints the line the interface asks for)"""
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) \[(\S+)\] (.*)", l)
            if m and m.group(1) == self.pid and m.group(2) == tag:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, m.group(3)), flush=True)
                return True
        return False

    def finish(self, title=""):
        shutil.rmtree(self.work, ignore_errors=True)
        ev = dict(property=self.pid)
        write_evidence(self)
        return 1 if self.violations else 0


def write_evidence(c):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    import evidence
    with open(os.path.join(VERIF, "evidence", c.pid + ".json"), "w") as f:
        json.dump(evidence.make(c), f, indent=1)
