"""The frame of every check: parallel trace jobs, model checking runs, replay files, evidence, verdict.

exit 0   the property held on everything explored (known findings are printed)
exit 1   VIOLATION property=<id> replay=<path>
exit 2   the check itself failed (build failure, tool failure): no verdict
"""
import concurrent.futures as cf, hashlib, json, os, shutil, signal, subprocess, sys, threading, time, traceback
from . import build, tlc
VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")

class ToolFailure(Exception): pass
class Stopped(Exception): pass
class Violation(Exception):
    def __init__(self, what, info): Exception.__init__(self, what); self.what, self.info = what, info

def known_findings(pid):
    """lines 'known: property=<id> key=<key> <text>' -> {key: text}"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                rest = l.split(" ", 2)[2]
                k, _, t = rest.partition(" ")
                out[k[4:] if k.startswith("key=") else k] = t
    return out

class Ctx:
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.budget = 240 if self.quick else 3000           # no new work is started after this
        self.lock = threading.Lock()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.level = "model_checking"
        self.assumptions = []
        self.known = known_findings(pid)
        self.seen_known = []
        self.stop = False
        self.extra = {}
    def log(self, *a):
        print("[%s %5.1fs]" % (self.id, time.time() - self.t0), *a, flush=True)
    def left(self): return self.budget - (time.time() - self.t0)
    def n(self, quick, thorough): return quick if self.quick else thorough
    def add(self, **kw):
        with self.lock:
            for k, v in kw.items(): self.cov[k] = self.cov.get(k, 0) + v
    def sample(self, s):
        with self.lock:
            if len(self.cov["samples"]) < 12: self.cov["samples"].append(s)
    def dir(self, name):
        d = os.path.join(build.scratch(), name); os.makedirs(d, exist_ok=True); return d
    def finding(self, key, what, info):
        """a violation with a stable key: known findings are reported and ignored, anything else ends the check"""
        if key in self.known:
            with self.lock:
                if key not in self.seen_known:
                    self.seen_known.append(key)
                    print("KNOWN-FINDING: property=%s %s: %s" % (self.id, key, self.known[key]), flush=True)
            return
        raise Violation(what, dict(info, key=key))

    # ---- model checking of a specification ------------------------------------------------------
    def mc(self, module, cfg, workers=8, heap="4g", timeout=None, env=None, extra=(), must=True, what="specification"):
        if self.left() < 5: return None
        r = tlc.run_tlc(module, cfg, workers=workers, heap=heap, timeout=timeout or max(30, self.left()), env=env, extra=extra)
        if not r.ok:
            if must: raise ToolFailure("TLC %s/%s rc=%d\n%s" % (module, cfg, r.rc, r.out[-3000:]))
        else:
            self.add(states=r.distinct, transitions=r.generated)
            self.log("model %s %s: %d states, %d transitions, depth %d, %.1fs" % (module, cfg, r.distinct, r.generated, r.depth, r.wall))
            self.extra.setdefault("models", []).append(dict(module=module, cfg=cfg, states=r.distinct, transitions=r.generated, depth=r.depth))
        return r

    # ---- traces: worker + TLC ------------------------------------------------------------------
    def worker(self, cmd, timeout, errfile, env=None):
        """-> (status, rc): status ok|crash|hang|killed|error"""
        try:
            with open(errfile, "wb") as ef:
                if self.stop: raise Stopped()
                p = subprocess.Popen(cmd, cwd=VERIF, stdout=ef, stderr=ef, env=dict(os.environ, **(env or {})), start_new_session=True)
                try:
                    end = time.time() + timeout; w = .02
                    while True:
                        try: rc = p.wait(w); break
                        except subprocess.TimeoutExpired:
                            if self.stop: os.killpg(p.pid, signal.SIGKILL); p.wait(); raise Stopped()
                            if time.time() > end: raise
                            w = min(.5, w * 2)
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL); p.wait(); return "hang", -9
                finally:
                    try: os.killpg(p.pid, signal.SIGKILL)
                    except OSError: pass
        except OSError as e: raise ToolFailure("cannot run worker: %s" % e)
        if rc == 0: return "ok", 0
        if rc == -9: return "killed", rc
        if rc < 0: return "crash", rc
        return "error", rc
    def one(self, job, tag):
        """run one trace job -> None (accepted) or failure description"""
        out = os.path.join(build.scratch(), "t-" + tag)
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        err = os.path.join(out, "stderr")
        cmd = [sys.executable, "-X", "faulthandler", "-m", job["driver"], job["lib"], job["profile"], str(job["seed"]), str(job["count"]), out] + [str(x) for x in job.get("args", [])]
        # every other job runs with memory that is not zero when it is handed out
        penv = {"MALLOC_PERTURB_": str(1 + job["seed"] % 255)} if job["seed"] % 2 else {}
        st, rc = self.worker(cmd, job.get("timeout", 60 if self.quick else 240), err, env=penv)
        tail = lambda p, k: (open(p, errors="replace").read()[-k:] if os.path.exists(p) else "")
        if st == "error" and rc == 3:                 # the driver itself observed a violation and wrote it down
            v = json.load(open(os.path.join(out, "violation.json")))
            return dict(kind="driver", text=v.get("text", ""), detail=v, out=out)
        if st == "error": raise ToolFailure("driver %s rc=%d\n%s" % (" ".join(cmd), rc, tail(err, 3000)))
        if st == "killed": raise ToolFailure("driver was killed: %s" % " ".join(cmd))
        if st in ("crash", "hang"):
            ev = tail(os.path.join(out, "trace.ndjson"), 4000).split("\n")[-8:]
            return dict(kind=st, rc=rc, events=ev, stderr=tail(err, 1500), out=out)
        meta = json.load(open(os.path.join(out, "meta.json")))
        tr = os.path.join(out, "trace.ndjson")
        r = tlc.run_tlc(job["module"], job["cfg"], workers=1, heap=job.get("heap", "1500m"), timeout=job.get("tlc_timeout", 400),
                        env=dict(TRACE=tr, VALS=os.path.join(out, "vals.json"), **job.get("env", {})))
        if r.ok:
            self.add(states=r.distinct, transitions=meta["events"], traces_validated_against_impl=meta.get("histories", job["count"]))
            with self.lock:
                o = self.extra.setdefault("operations", {})
                for k, v in meta.get("ops", {}).items(): o[k] = o.get(k, 0) + v
                if len(self.cov["samples"]) < 6:
                    L = open(tr).read(200000).split("\n")
                    self.cov["samples"].append(dict(profile=job["profile"], seed=job["seed"], events=[x[:300] for x in L[1:7] if x]))
            shutil.rmtree(out, ignore_errors=True)
            return None
        if "TIMEOUT" in r.out[-20:] or "OutOfMemory" in r.out or "Parsing or semantic analysis failed" in r.out or r.depth == 0 and not "Error:" in r.out:
            raise ToolFailure("TLC on trace rc=%d\n%s" % (r.rc, r.out[-2500:]))
        L = open(tr).read().split("\n")
        # rejected at event number = depth reached (events accepted: depth - 1)
        d = r.depth if r.depth else 0
        import re
        m = re.findall(r'<<"MAXL", (\d+)>>', r.out)         # specifications with steps that are not recorded say how far they came
        if m: d = int(m[-1])
        if d == 0:
            m = re.findall(r"/\\ l = (\d+)", r.out); d = int(m[-1]) if m else 1
        return dict(kind="reject", at=d, event=L[d - 1][:2000] if 0 < d <= len(L) else "", before=[x[:600] for x in L[max(0, d - 12):d - 1]],
                    tlc=r.out[-1500:], out=out)
    def traces(self, jobs, par=8):
        """jobs: dicts with driver, lib, profile, seed, count, module, cfg"""
        def run(k):
            job = jobs[k]
            if self.stop: return
            if self.left() < 20: self.add(jobs_skipped_for_time=1); return
            tag = "%d-%s-%d" % (k, job["profile"], job["seed"])
            try: f = self.one(job, tag)
            except Stopped: return
            if f is None: return
            if f["kind"] in ("hang", "crash"):
                try: g = self.one(job, tag + "-again")
                except Stopped: g = f
                if g is None and f["kind"] == "hang": self.add(unreproduced_timeouts=1); return
            self.stop = True
            what = "%s in profile %s seed %d: %s" % (f["kind"], job["profile"], job["seed"], f.get("event") or f.get("text") or f.get("events", [""])[-2:])
            keep = {k: v for k, v in f.items() if k != "out"}
            raise Violation(what, dict(job={k: v for k, v in job.items()}, failure=keep, trace=f.get("out")))
        ex = cf.ThreadPoolExecutor(par)
        fs = [ex.submit(run, k) for k in range(len(jobs))]
        err = None
        for f in cf.as_completed(fs):
            e = f.exception()
            if e is not None:
                self.stop = True
                if err is None or isinstance(e, Violation) and not isinstance(err, Violation): err = e
        ex.shutdown()
        if err is not None: raise err
    def store(self, profiles, quick=(4, 30), thorough=(24, 80), variants=("full",), drivers="wgv.drv_store", **kw):
        """trace jobs over the store drivers: quick/thorough = (jobs per profile and variant, histories per job)"""
        nj, cnt = quick if self.quick else thorough
        jobs = []
        for v in variants:
            lib = build.lib(v)
            for p in profiles:
                if isinstance(p, tuple): p, c = p[0], max(1, int(cnt * p[1]))
                else: c = cnt
                for j in range(nj):
                    jobs.append(dict(driver=drivers, lib=lib, variant=v, profile=p, seed=self.seed * 1000 + j, count=c,
                                     module="StoreTrace.tla", cfg="StoreTrace.cfg", **kw))
        jobs.sort(key=lambda j: j["seed"])
        self.traces(jobs)

def replay_file(ctx, v):
    d = os.path.join(VERIF, "evidence", "replay"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%d.json" % (ctx.id, ctx.tier, ctx.seed))
    info = dict(v.info)
    tr = info.pop("trace", None)
    if tr and os.path.exists(os.path.join(tr, "trace.ndjson")):
        q = p[:-5] + ".trace.ndjson"
        with open(os.path.join(tr, "trace.ndjson"), "rb") as f: data = f.read(20000000)
        open(q, "wb").write(data)
        if os.path.exists(os.path.join(tr, "vals.json")): shutil.copy(os.path.join(tr, "vals.json"), p[:-5] + ".vals.json")
        info["trace_file"] = q
    if "job" in info: info["job"] = {k: x for k, x in info["job"].items() if k != "lib"}
    json.dump(dict(property=ctx.id, tier=ctx.tier, seed=ctx.seed, what=v.what, info=info,
                   rerun="cd /verif && VERIF_SEED=%d bin/check %s%s" % (ctx.seed, ctx.id, "" if ctx.quick else " --thorough")),
              open(p, "w"), indent=1, default=str)
    return p

def main(checks):
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    pid = a[0]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(pid, tier, seed)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rc, viol = 0, 0
    try:
        checks[pid](ctx)
        if not ctx.cov.get("traces_validated_against_impl") and not ctx.cov.get("evaluations"): raise ToolFailure("the check explored nothing")
    except Violation as v:
        p = replay_file(ctx, v); viol = 1; rc = 1
        print("violation: %s" % v.what[:3000], flush=True)
        print("VIOLATION property=%s replay=%s" % (pid, p), flush=True)
    except ToolFailure as e:
        print("CHECK FAILED (no verdict): %s" % e, flush=True); rc = 2
    except SystemExit: raise
    except Exception:
        traceback.print_exc(); rc = 2
    if rc < 2:
        cov = dict(ctx.cov); cov.update(ctx.extra)
        if not cov["samples"]: cov["samples"] = [dict(note="see violation")]
        json.dump(dict(property=pid, tier=tier, seed=seed, level=ctx.level, coverage=cov, assumptions=ctx.assumptions,
                       wall_s=round(time.time() - ctx.t0, 1), violations=viol),
                  open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, default=str)
    ctx.log("done rc=%d %s" % (rc, {k: v for k, v in ctx.cov.items() if k != "samples"}))
    sys.stdout.flush(); sys.exit(rc)
