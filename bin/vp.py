"""Build, run and judge: shared machinery of every check (see DESIGN.md)."""
import concurrent.futures as cf
import ctypes, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time, glob

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
EPICS = "/opt/vp/epics-base"
BUILD = os.path.join(ROOT, "build")
WORK = os.path.join(ROOT, "work")
SPEC = os.path.join(ROOT, "spec")
HARN = os.path.join(ROOT, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")

class CheckError(Exception):
    """The check itself could not give an answer (exit 2)."""

# ------------------------------------------------------------------ building
VERSION_H = """#ifndef PVDVERSION_H
#  error include pvdVersion.h, not this header
#endif
#define EPICS_PVD_MAJOR_VERSION %s
#define EPICS_PVD_MINOR_VERSION %s
#define EPICS_PVD_MAINTENANCE_VERSION %s
#define EPICS_PVD_DEVELOPMENT_FLAG %s
"""
DIRS = ["misc", "pv", "factory", "property", "copy", "pvMisc", "json"]

def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def _read(p):
    with open(p, "rb") as f: return f.read()

FLAVORS = {
    # address + dynamic-type sanitizers: a memory or type error ends the driver,
    # which the trace shows as an event no specification allows
    "asan": ["-O0", "-fsanitize=address,vptr,null", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "plain": ["-O0", "-D_GLIBCXX_ASSERTIONS"],
    # every memory access of the library is a possible preemption point of the
    # scheduler in coop.cpp, which supplies the instrumentation's callbacks
    "fine": ["-O0", "-D_GLIBCXX_ASSERTIONS"],
}
LIBFLAGS = {"fine": ["-O1", "-fsanitize=thread", "-fno-inline-small-functions", "-D_GLIBCXX_ASSERTIONS"]}

def build(driver, flavor="asan", extra=()):
    """Compile /repo's library sources and one driver; returns the executable."""
    src = os.path.join(REPO, "src")
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    cfgv = open(os.path.join(REPO, "configure", "CONFIG_PVDATA_VERSION")).read() if os.path.exists(os.path.join(REPO, "configure", "CONFIG_PVDATA_VERSION")) else ""
    def ver(n, d):
        m = re.search(r"%s\s*=\s*(\d+)" % n, cfgv); return m.group(1) if m else d
    gen = os.path.join(BUILD, "gen", "pv"); os.makedirs(gen, exist_ok=True)
    vh = VERSION_H % (ver("EPICS_PVD_MAJOR_VERSION", "8"), ver("EPICS_PVD_MINOR_VERSION", "0"), ver("EPICS_PVD_MAINTENANCE_VERSION", "0"), ver("EPICS_PVD_DEVELOPMENT_FLAG", "0"))
    vhp = os.path.join(gen, "pvdVersionNum.h")
    if not os.path.exists(vhp) or open(vhp).read() != vh:
        with open(vhp, "w") as f: f.write(vh)
    flags = ["-std=gnu++17", "-g1", "-w", "-pthread"] + FLAVORS[flavor]
    inc = ["-I" + os.path.join(BUILD, "gen"), "-I" + src] + ["-I" + os.path.join(src, d) for d in DIRS if d != "pv"]
    inc += ["-isystem" + EPICS + "/include", "-isystem" + EPICS + "/include/os/Linux", "-isystem" + EPICS + "/include/compiler/gcc"]
    cpps = sorted(c for d in DIRS for c in glob.glob(os.path.join(src, d, "*.cpp")))
    if not cpps: raise CheckError("no sources in " + src)
    hdrs = sorted(glob.glob(src + "/**/*.h", recursive=True))
    hdrs = [h for h in hdrs if "/O." not in h]
    hkey = _sha(*[os.path.relpath(h, src).encode() + _read(h) for h in hdrs], vh, " ".join(flags), " ".join(LIBFLAGS.get(flavor, ())))
    vkey = _sha(*[_read(h) for h in sorted(glob.glob(HARN + "/*.h"))])
    jobs = []
    for c in cpps + [os.path.join(HARN, "vh.cpp"), os.path.join(HARN, driver + ".cpp")] + [os.path.join(HARN, e) for e in extra]:
        own = c.startswith(HARN)
        key = _sha(hkey, _read(c), os.path.basename(c), vkey if own else "")
        jobs.append((c, os.path.join(BUILD, "obj", "%s-%s.o" % (os.path.basename(c)[:-4], key))))
    exe = os.path.join(BUILD, "%s-%s-%s" % (driver, flavor, _sha(*[o for _, o in jobs])))
    if os.path.exists(exe): return exe
    def comp(j):
        c, o = j
        if os.path.exists(o): return None
        tmp = "%s.%d.%d.tmp" % (o, os.getpid(), threading.get_ident())
        r = subprocess.run(["g++"] + flags + ([] if c.startswith(HARN) else LIBFLAGS.get(flavor, [])) + inc + ["-I" + HARN, "-c", c, "-o", tmp], capture_output=True, text=True)
        if r.returncode: return c + ":\n" + r.stderr[-4000:]
        os.replace(tmp, o)
    # biggest first
    todo = sorted(jobs, key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(comp, todo) if e]
    if errs: raise CheckError("compile failed\n" + "\n".join(errs))
    tmp = exe + ".%d.tmp" % os.getpid()
    r = subprocess.run(["g++"] + flags + [o for _, o in jobs] + ["-o", tmp, "-l:libCom.so.3.22.0" if os.path.exists("/usr/lib/x86_64-linux-gnu/libCom.so.3.22.0") else "-lCom", "-rdynamic"], capture_output=True, text=True)
    if r.returncode: raise CheckError("link failed\n" + r.stderr[-4000:])
    os.replace(tmp, exe)
    return exe

# ------------------------------------------------------------------- running
ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_odr_violation=0:handle_abort=0:detect_stack_use_after_return=0",
            "UBSAN_OPTIONS": "print_stacktrace=0:exitcode=77", "TZ": "UTC", "LC_ALL": "C"}

def run_driver(exe, out, args=(), timeout=300, env=None):
    """Run a driver; a crash or hang becomes a final trace event that no
    specification action explains."""
    e = dict(os.environ); e.update(ASAN_ENV); e.update(env or {})
    cmd = [exe, "--seed", str(SEED), "--tier", TIER, "--out", out] + list(args)
    t0 = time.time()
    p = subprocess.Popen(cmd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, start_new_session=True)
    err = b""
    try:
        err = p.communicate(timeout=timeout)[1]; rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); err = p.communicate()[1]; rc = "hang"
    if rc == 2: raise CheckError("driver usage: " + err.decode(errors="replace")[-500:])
    if rc != 0:
        data = _read(out) if os.path.exists(out) else b""
        cut = data.rfind(b"\n") + 1
        with open(out, "wb") as f:
            f.write(data[:cut])
            tail = err.decode(errors="replace")
            m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*|Assertion[^\n]*|A call to[^\n]*|driver: uncaught[^\n]*)", tail)
            f.write((json.dumps({"op": "Crash", "how": str(rc), "what": (m.group(1) if m else tail[-200:])}) + "\n").encode())
    return dict(rc=rc, wall=time.time() - t0, err=err.decode(errors="replace"))

_libc = ctypes.CDLL(None)
def _die_with_parent(): _libc.prctl(1, 9)  # no TLC is left behind when a check is killed

def tlc(module, cfg, env=None, workers=1, timeout=600, xmx="3g", extra=(), xss="64m"):
    """One TLC run; returns (returncode, output)."""
    md = os.path.join(WORK, "md", "%s-%d-%d-%d" % (module, os.getpid(), threading.get_ident(), time.monotonic_ns()))
    os.makedirs(md, exist_ok=True)
    e = dict(os.environ); e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss" + xss, "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
           "-noGenerateSpecTE", "-deadlock", "-metadir", md, "-config", cfg] + list(extra) + [module + ".tla"]
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True, preexec_fn=_die_with_parent)
    try:
        out = p.communicate(timeout=timeout)[0]; rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); out = p.communicate()[0]; rc = "timeout"
    shutil.rmtree(md, ignore_errors=True)
    return rc, out

def counts(out):
    m = re.findall(r"(\d[\d,]*) states generated(?: \([^)]*\))?[^,(]*, (\d[\d,]*) distinct states found", out)
    if not m: return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))

def scripts_text(path):
    """Operation scripts emitted by TLC (CSV of JSON text) as 'op k=v k=v;op ...' lines."""
    out = []
    with open(path) as f:
        for ln in f:
            ln = ln.strip()
            if not ln: continue
            recs = json.loads(json.loads(ln))
            if isinstance(recs, dict): recs = [recs]
            parts = []
            for r in recs:
                op = r.pop("op")
                parts.append(" ".join([op] + ["%s=%s" % (k, ",".join(map(str, v)) if isinstance(v, list) else (int(v) if isinstance(v, bool) else v)) for k, v in r.items()]))
            out.append(";".join(parts))
    out.sort()
    with open(path, "w") as f:
        for o in out: f.write(o + "\n")
    return len(out)

def model_check(module, cfg, min_distinct=2, env=None, timeout=600, workers=4, extra=(), xmx="4g"):
    t0 = time.time()
    for attempt in (1, 2):
        rc, out = tlc(module, cfg, env=env, workers=workers, timeout=timeout, extra=extra, xmx=xmx)
        if rc == 0 and "No error has been found" in out: break
        # a deep model may have more states than time: what was explored, breadth first, is without error
        if rc == "timeout" and TIER == "thorough" and counts(out)[1] >= min_distinct and "Error:" not in out: break
    else:
        raise CheckError("TLC on %s/%s: rc=%s\n%s" % (module, cfg, rc, out[-4000:]))
    g, d = counts(out)
    if d < min_distinct: raise CheckError("model %s explored only %d states" % (cfg, d))
    return dict(module=module, cfg=cfg, complete=rc == 0, generated=g, distinct=d, wall=round(time.time() - t0, 2))

# ---------------------------------------------------------- trace validation
def split(path, maxlines, outdir, tag):
    """Chunk an ndjson trace at scenario starts."""
    lines = _read(path).decode("utf-8", "replace").split("\n")
    if lines and lines[-1] == "": lines.pop()
    scen, cur = [], []
    for ln in lines:
        if ln.startswith('{"op":"Start"') or '"op":"Start"' in ln[-40:] and False:
            if cur: scen.append(cur)
            cur = [ln]
        else:
            cur.append(ln)
    if cur: scen.append(cur)
    return scen

def is_start(ln):
    return '"op":"Start"' in ln

def scenarios(path):
    lines = _read(path).decode("utf-8", "replace").split("\n")
    out, cur = [], []
    for ln in lines:
        if not ln: continue
        if is_start(ln) and cur:
            out.append(cur); cur = []
        cur.append(ln)
    if cur: out.append(cur)
    return out

class TraceResult:
    def __init__(self):
        self.events = 0; self.scen = 0; self.states = 0; self.generated = 0; self.rejections = []; self.ops = {}

def _validate_once(module, cfg, scens, tag, timeout, env, xmx):
    path = os.path.join(WORK, "trace", "%s-%d-%d.ndjson" % (tag, os.getpid(), time.monotonic_ns()))
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        for s in scens:
            for ln in s: f.write(ln + "\n")
    n = sum(len(s) for s in scens)
    e = dict(env or {}); e["TRACE"] = path
    try:
        rc, out = tlc(module, cfg, env=e, timeout=timeout, xmx=xmx)
    finally:
        os.unlink(path)
    g, d = counts(out)
    m = re.search(r'<<"MATCHED", (\d+), (\d+)>>', out)
    if m:
        if int(m.group(2)) != n: raise CheckError("trace length mismatch %s vs %d" % (m.group(2), n))
        got = int(m.group(1))
        return (None if got >= n else got), g, d, out
    if rc == "timeout": raise CheckError("TLC timeout on %s" % tag)
    # the specification cannot even be evaluated on some line of the trace
    ls = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
    if ls and ("TLC threw" in out or "Error:" in out):
        return int(ls[-1]) - 1, g, d, out
    if "Error:" in out and "nitial" in out and "behavior up to" not in out:
        # evaluation failed while computing the very first step
        return 0, g, d, out
    raise CheckError("TLC failed on trace %s (rc=%s):\n%s" % (tag, rc, out[-3000:]))

def validate(module, cfg, path, tag, chunk=4000, timeout=600, env=None, jobs=None, xmx="3g", known=None, max_rej=3):
    """Validate every scenario of an ndjson trace against module; returns TraceResult."""
    res = TraceResult()
    sc = scenarios(path)
    if not sc: raise CheckError("empty trace " + path)
    res.scen = len(sc); res.events = sum(len(s) for s in sc)
    for s in sc:
        for ln in s:
            m = re.search(r'"op":"(\w+)"', ln)
            if m: res.ops[m.group(1)] = res.ops.get(m.group(1), 0) + 1
    jobs = jobs or NCPU
    per = max(1, min(chunk, -(-res.events // jobs)))
    chunks, cur, n = [], [], 0
    for s in sc:
        if cur and n + len(s) > per:
            chunks.append(cur); cur, n = [], 0
        cur.append(s); n += len(s)
    if cur: chunks.append(cur)
    lock = threading.Lock()
    def work(ch):
        rem = list(ch)
        while rem:
            with lock:
                if len([r for r in res.rejections if not r["known"]]) >= max_rej: return
            got, g, d, out = _validate_once(module, cfg, rem, tag, timeout, env, xmx)
            with lock:
                res.generated += g; res.states += d
            if got is None: return
            # locate the scenario of the first unexplained line
            k, i = got, 0
            while i < len(rem) and k >= len(rem[i]):
                k -= len(rem[i]); i += 1
            bad = rem[i]
            # a rejection counts only if the scenario alone is rejected again at the same place
            got2, g, d, out2 = _validate_once(module, cfg, [bad], tag + "-again", timeout, env, xmx)
            if got2 is None:
                raise CheckError("rejection of %s not reproduced in isolation: %s\n%s" % (tag, bad[k][:300], out[-1500:]))
            ev = bad[min(got2, len(bad) - 1)]
            kf = known(ev, bad) if known else None
            err = ""
            m = re.search(r"(Error: .*?)(?:\n\n|\Z)", out2, re.S)
            if m and "TLC threw" in out2: err = m.group(1)[:600]
            with lock:
                res.rejections.append(dict(event=ev, scenario=bad, index=got2, known=kf, err=err))
            rem = rem[i + 1:]
    with cf.ThreadPoolExecutor(jobs) as ex:
        for f in [ex.submit(work, c) for c in chunks]: f.result()
    return res

def known_findings(pid):
    """(signature-substring, text) pairs listed for a property."""
    out = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) match=(\{.*?\}) :: (.*)", ln.strip())
            if m and m.group(1) == pid: out.append((json.loads(m.group(2)), m.group(3)))
    return out

def known_matcher(pid):
    kfs = known_findings(pid)
    def f(ev, scen):
        try: e = json.loads(ev)
        except ValueError: return None
        for m, text in kfs:
            if all(e.get(k) == v for k, v in m.items()): return text
        return None
    return f

def write_evidence(pid, level, coverage, wall, violations=0, assumptions=()):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = dict(property=pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level, coverage=coverage,
              assumptions=list(assumptions), wall_s=round(wall, 2), violations=violations)
    p = os.path.join(ROOT, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f: json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)
