#!/usr/bin/env python3
"""check.py <property-id>: decide one property on /repo's current tree."""
import json, os, sys, time, traceback, threading
import concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp
from props import PROPS

def run(pid):
    t0 = time.time()
    P = PROPS[pid]
    os.makedirs(vp.WORK, exist_ok=True)
    wd = os.path.join(vp.WORK, "%s-%d" % (pid, os.getpid())); os.makedirs(wd, exist_ok=True)
    models, runs, results = [], [], []
    try:
        # 1. the specification itself (exhaustive, small constants), in parallel with the build
        with cf.ThreadPoolExecutor(4) as ex:
            mf = []
            mcs = [m for m in P.get("mc", []) if not (m.get("tier") and m["tier"] != vp.TIER)]
            for m in mcs:
                env = dict(m.get("env", {}))
                if m.get("gen"):
                    env["GEN"] = os.path.join(wd, m["gen"])
                mf.append(ex.submit(vp.model_check, m["module"], m["cfg"], m.get("min", 2), env, m.get("timeout", 700), m.get("workers", 4), m.get("extra", ())))
            exes = {}
            want = {(t["driver"], t.get("flavor", "asan"), tuple(t.get("extra_src", ()))) for t in P["trace"]}
            bf = {w[:2]: ex.submit(vp.build, *w) for w in sorted(want)}
            for k, f in bf.items(): exes[k] = f.result()
            gens = any(m.get("gen") for m in mcs)
            if gens:
                models = [f.result() for f in mf]
                for m in mcs:
                    if m.get("gen"): vp.scripts_text(os.path.join(wd, m["gen"]))
            # 2. behaviours of the real code, 3. judged by TLC against the specification
            for i, t in enumerate(P["trace"]):
                if t.get("tier") and t["tier"] != vp.TIER: continue
                out = os.path.join(wd, "t%d.ndjson" % i)
                args = []
                if t.get("mode"): args += ["--mode", t["mode"]]
                if t.get("scale"): args += ["--scale", str(t["scale"])]
                if t.get("script"): args += ["--script", os.path.join(wd, t["script"])]
                r = vp.run_driver(exes[(t["driver"], t.get("flavor", "asan"))], out, args, t.get("timeout", 240))
                runs.append((t, out, r))
            for t, out, r in runs:
                v = vp.validate(t["module"], t.get("cfg", t["module"] + ".cfg"), out, pid, chunk=t.get("chunk", 6000), known=vp.known_matcher(pid), timeout=t.get("tlc_timeout", 700), xmx=t.get("xmx", "3g"))
                results.append((t, v, r))
            if not gens: models = [f.result() for f in mf]
        # completeness: every event kind the specification knows must have occurred
        viol = []
        for t, v, r in results:
            for rej in v.rejections:
                if rej["known"]: print("KNOWN-FINDING: property=%s %s" % (pid, rej["known"]))
                else: viol.append((t, rej))
        if not viol:
            for t, v, r in results:
                miss = [o for o in t.get("ops", []) if o not in v.ops]
                if miss: raise vp.CheckError("driver %s never exercised %s" % (t["driver"], miss))
        samples = []
        for t, v, r in results:
            s = vp.scenarios(runs[[x[0] for x in runs].index(t)][1])
            samples.append([x[:400] for x in s[len(s) // 2][:6]])
        cov = dict(states=sum(m["distinct"] for m in models) + sum(v.states for _, v, _ in results),
                   transitions=sum(m["generated"] for m in models) + sum(v.generated for _, v, _ in results),
                   traces_validated_against_impl=sum(v.scen for _, v, _ in results),
                   events_validated=sum(v.events for _, v, _ in results),
                   event_kinds={t["driver"] + ("/" + t["mode"] if t.get("mode") else ""): v.ops for t, v, _ in results},
                   models=models, samples=samples)
        rep = []
        os.makedirs(os.path.join(vp.WORK, "replay"), exist_ok=True)
        for n, (t, rej) in enumerate(viol[:4]):
            p = os.path.join(vp.WORK, "replay", "%s-%d.ndjson" % (pid, n))
            with open(p, "w") as f:
                f.write(json.dumps(dict(property=pid, driver=t["driver"], mode=t.get("mode"), seed=vp.SEED, tier=vp.TIER, spec=t["module"], rejected_index=rej["index"], tlc=rej["err"])) + "\n")
                for ln in rej["scenario"]: f.write(ln + "\n")
            rep.append(p)
        vp.write_evidence(pid, P.get("level", "model_checking"), cov, time.time() - t0, len(viol), P.get("assumptions", ()))
        for (t, rej), p in zip(viol, rep):
            print("rejected by %s: %s" % (t["module"], rej["event"][:700]))
            if rej["err"]: print("  TLC:", rej["err"])
            print("VIOLATION property=%s replay=%s" % (pid, p))
        if viol: return 1
        print("OK property=%s states=%d traces=%d events=%d wall=%.1fs" % (pid, cov["states"], cov["traces_validated_against_impl"], cov["events_validated"], time.time() - t0))
        return 0
    finally:
        if not os.environ.get("VP_KEEP"):
            import shutil; shutil.rmtree(wd, ignore_errors=True)

if __name__ == "__main__":
    try:
        sys.exit(run(sys.argv[1]))
    except vp.CheckError as e:
        print("CHECK-ERROR", e); sys.exit(2)
    except Exception:
        traceback.print_exc(); sys.exit(2)
