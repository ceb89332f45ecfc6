#!/usr/bin/env python3
"""Development aid (no check uses it): validate planted bugs in a scratch copy.
   seed.py ID...      build, stable tests, demo on both trees, the property's check
   seed.py -c ID...   only the check (and the build of the patched copy is skipped)"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedw"
def sh(c, cwd=W, t=900, env=None):
    try:
        r = subprocess.run(["bash", "-c", c], cwd=cwd, capture_output=True, text=True, timeout=t, env=dict(os.environ, **(env or {})), errors="replace")
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired: return 124, "timeout"
def make(): return sh("umask 022; LC_ALL=C make -j8 EPICS_BASE=/opt/vp/epics-base all")
def tests():
    b = W + "/testApp/O.linux-x86_64"; rep = b + "/tap"
    sh("rm -rf %s; mkdir -p %s" % (rep, rep))
    names = open(b + "/testlist").read().split()
    for n in names:
        sh("timeout -k 5 120 ./%s.t > %s/%s.raw 2> %s/%s.err < /dev/null; python3 /opt/vp/tap_ids.py %s %s/%s.raw %s/%s.tap $?" % (n, rep, n, rep, n, n, rep, n, rep, n), cwd=b,
           env=dict(LC_ALL="C", TZ="UTC", EPICS_TEST_IMPRECISE_TIMING="YES", HARNESS_ACTIVE="1", LD_LIBRARY_PATH=W + "/lib/linux-x86_64"))
    sh("python3 /opt/vp/results.py /tmp/seed.json 'tap:%s/*.tap'" % rep)
    base = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open("/tmp/seed.json"))
    def names_(x):
        for k in ("passed", "passing", "tests", "stable"):
            if k in x: return set(x[k])
    return sorted(names_(base) - names_(o))
def main():
    a = sys.argv[1:]; only = "-c" in a; notest = "-n" in a; a = [x for x in a if x[0] != "-"]
    if os.path.exists(W): subprocess.run(["rm", "-rf", W])
    subprocess.run(["cp", "-a", os.environ.get("VP_REPO", "/repo"), W]); rc, o = make()
    for i in a:
        d = os.path.join(V, "seeded", i); meta = json.load(open(d + "/meta.json"))
        demo = "/tmp/seeddemo"; subprocess.run(["rm", "-rf", demo]); shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        res = []
        if not only:
            rc, o = sh("bash %s/demo.sh" % demo, t=300); res.append("demo0=%d" % rc)
            if rc: print(o[-600:])
        rc, o = sh("git apply --whitespace=nowarn %s/patch.diff" % d)
        if rc: print(i, "PATCH DOES NOT APPLY", o); continue
        if not only:
            rc, o = make(); res.append("build=%d" % rc)
            if rc: print("\n".join(l for l in o.splitlines() if "error" in l)[:800])
            rc, o = sh("bash %s/demo.sh" % demo, t=300); res.append("demo1=%d" % rc)
            if not rc: print(o[-600:])
            if not notest: m = tests(); res.append("missing=%d %s" % (len(m), m[:2]))
        for p in meta.get("checks", [meta["property"]]):
            rc, o = sh("python3 %s/bin/check.py %s" % (V, p), cwd=V, env=dict(VP_REPO=W, VERIF_SEED="1", VERIF_TIER="quick"))
            v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            res.append("check %s rc=%d %s" % (p, rc, v[0][:120] if v else o.strip()[-150:]))
        print(i, "|", " ".join(res), flush=True)
        sh("git checkout -- . ")
        if not only: make()
main()
