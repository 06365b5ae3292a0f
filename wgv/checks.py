"""One function per property."""
import json, os
from . import build, gen
from .frame import *

CHECKS = {}
def check(f): CHECKS[f.__name__] = f; return f

@check
def S01(c): c.store(["rec"], (8, 30), (40, 120)); 
@check
def S02(c): c.store(["rec", ("scanbig", .1)], (5, 30), (24, 80))
@check
def V01(c): c.store(["val"], (8, 30), (40, 80))
@check
def V02(c): c.store(["share", "chain"], (6, 30), (30, 120))
@check
def B01(c): c.store(["link"], (8, 40), (40, 120))
@check
def C01(c): c.store(["cmp"], (8, 30), (40, 100))
@check
def I01(c): c.store(["ttree", "ttreegrow", "idx", "reckey"], (3, 25), (16, 60), variants=("full", "ttree"))
@check
def I02(c): c.store(["hash", "hashq", "hashchain"], (4, 25), (20, 100))
@check
def I03(c): c.store(["cat"], (8, 50), (40, 200))
@check
def Q01(c): c.store(["query", "queryrange"], (5, 40), (24, 120))
@check
def Q02(c): c.store(["prefetch"], (8, 30), (40, 100))
@check
def Q03(c): c.store(["find"], (8, 40), (40, 120))

def jobs(c, driver, module, cfg, profiles, quick, thorough, variants=("full",), **kw):
    nj, cnt = quick if c.quick else thorough
    J = []
    for v in variants:
        for p in profiles:
            p, s = p if isinstance(p, tuple) else (p, 1)
            for j in range(nj):
                J.append(dict(driver=driver, lib=build.lib(v), variant=v, profile=p, seed=c.seed * 1000 + j, count=max(1, int(cnt * s)), module=module, cfg=cfg, **kw))
    return J
def model_jobs(c, module, cfg, driver, tmodule, tcfg, share, par=8, args=(), name="hist", **kw):
    """behaviours of a model replayed into the code: 1/share of them in the quick tier, all in the thorough one"""
    r, hs = gen.histories(module, cfg)
    c.add(states=r.distinct, transitions=r.generated)
    c.log("model %s/%s: %d states, %d transitions, %d behaviours" % (module, cfg, r.distinct, r.generated, len(hs)))
    c.extra.setdefault("models", []).append(dict(module=module, cfg=cfg, states=r.distinct, transitions=r.generated, behaviours=len(hs), replayed="1/%d" % (share if c.quick else 1)))
    f = os.path.join(build.scratch(), name + ".json"); json.dump(hs, open(f, "w"))
    k = share if c.quick else 1
    par = par if c.quick else par * 4
    return [dict(driver=driver, lib=build.lib("full"), variant="full", profile="model", seed=j, count=max(1, len(hs) // (k * par)), module=tmodule, cfg=tcfg,
                 args=[f] + list(args) + [k * par, c.seed * par % (k * par) + j], timeout=120 if c.quick else 600, tlc_timeout=900, **kw) for j in range(par)]
@check
def A01(c):
    c.mc("AllocModel.tla", "AllocModel.cfg")
    c.store(["share", "link", "idx"], (2, 15), (10, 60), variants=("full", "ttree"))
    c.traces(jobs(c, "wgv.drv_alloc", "AllocTrace.tla", "AllocTrace.cfg", [("random", 1), ("small", 1), ("fixed", .6)], (4, 12), (24, 60))
             + model_jobs(c, "AllocModel.tla", "AllocGen.cfg", "wgv.drv_alloc", "AllocTrace.tla", "AllocTrace.cfg", 24, args=[26]))

def known(c, job, key, what):
    """a history that the code is known to get wrong: rejected by the specification, and by nothing else"""
    f = c.one(job, key)
    if f is None: return
    info = dict(job=job, failure={k: v for k, v in f.items() if k != "out"}, trace=f.get("out"))
    if f.get("kind") != "reject": raise Violation("%s: %s" % (key, f.get("kind")), info)
    c.finding(key, what, info)
@check
def A02(c):
    OT = ("wgv.drv_oom", "OomTrace.tla", "OomTrace.cfg")
    c.traces(jobs(c, *OT, [("full", 1), ("one", 1), ("fill", .1), ("tiny", .3)], (6, 22), (60, 40))
             + jobs(c, *OT, [("full", 1), ("one", 1)], (1, 15), (10, 40), variants=("plain", "ttree")))
    known(c, jobs(c, *OT, ["docdel"], (1, 1), (1, 1))[0], "document-deletion", "a document is deleted in part when there is no room for index entries")

JT = ("wgv.drv_journal", "JournalTrace.tla", "JournalTrace.cfg")
@check
def J01(c):
    c.traces(jobs(c, *JT, [("replay", 1), ("special", 1), ("churn", 2)], (5, 12), (40, 40))
             + jobs(c, "wgv.drv_ojournal", "OomJournalTrace.tla", "OomJournalTrace.cfg", [("full", 1), ("fill", .25), ("nodisk", 1)], (3, 8), (30, 30)))
@check
def J02(c): c.traces(jobs(c, *JT, ["cuts"], (8, 10), (40, 30)))
@check
def J03(c):
    c.mc("JournalModel.tla", "JournalModel.cfg", env={})
    c.traces(jobs(c, *JT, ["rotate"], (8, 20), (40, 60))
             + model_jobs(c, "JournalModel.tla", "JournalGen.cfg", JT[0], JT[1], JT[2], 2))

DT = ("wgv.drv_dump", "StoreTrace.tla", "StoreTrace.cfg")
@check
def D01(c):
    other = [build.lib("ttree")]
    J = jobs(c, *DT, ["rt-" + n for n in ("rec", "share", "link", "idx", "ttreegrow", "hash", "cat", "query", "find", "val", "atomic")], (2, 8), (12, 40))
    J += jobs(c, *DT, ["rt-idx", "rt-share"], (1, 8), (6, 30), variants=("plain",))
    J += jobs(c, "wgv.drv_dump", "DumpTrace.tla", "DumpTrace.cfg", ["conc"], (2, 6), (12, 30))
    c.traces(J)
@check
def D02(c): c.traces(jobs(c, *DT, ["refuse"], (8, 8), (40, 30), args=[build.lib("ttree")]))

PROTOS = {"full": "tfqueue", "rpspin": "rpspin", "wpspin": "wpspin"}
def locking(c, aspect, protos=("full", "rpspin", "wpspin")):
    J = []
    for v in protos:
        exe = build.locks(v); spin = v != "full"
        def job(profile, seed, count, *args):
            J.append(dict(driver="wgv.drv_lock", lib=exe, variant=v, profile=profile, seed=seed, count=count, args=args, module="LockTrace.tla", cfg="LockTrace.cfg",
                          env=dict(ASPECT=aspect, PROTO=PROTOS[v]), timeout=120 if c.quick else 1500, tlc_timeout=1500, heap="3g"))
        for j in range(c.n(2, 16)):
            for st in ("rand", "pct"):
                job(st + "-small", c.seed * 1000 + j, c.n(40, 300), 2, 0, 1, c.n(2500, 15000), 60)
                job(st + "-big", c.seed * 1000 + j, c.n(15, 150), 2, 0, 1, c.n(1000, 10000), 60)
        # every schedule of the small scenarios with one preemption (queued locks: two), and random ones
        if not spin:
            b = c.n(1, 2); P = c.n(4, 24)
            for j in range(P): job("dfs-small", c.seed, 1000000000, b, j, P)
            if c.quick:
                for j in range(4): job("dfs-small", c.seed, 1000000000, 2, (4 * c.seed + j) % 60, 60)
        else:
            P = c.n(4, 24)
            for j in range(P): job("dfs-small", c.seed, c.n(150, 20000), 1, j, P)
        for j in range(4): job("pct-shapes", c.seed * 1000, c.n(100, 3000), 2, j, 4)
    c.traces(J)
def lockmodels(c):
    for m, f in (("QueueLock", ""), ("SpinLock", "R"), ("SpinLock", "W")) + ((("QueueLock", "4"), ("SpinLock", "W4")) if not c.quick else ()):
        c.mc(m + ".tla", m + f + ".cfg", heap="8g")
@check
def L01(c): lockmodels(c); locking(c, "exclusion")
@check
def L02(c): lockmodels(c); locking(c, "progress")
@check
def L03(c): lockmodels(c); locking(c, "order", ("full", "wpspin"))
@check
def L04(c):
    exe = build.locks("full"); J = []
    for j in range(c.n(3, 12)):
        for st, n, per in (("rand", c.n(60, 400), 40), ("pct", c.n(60, 400), 40), ("dfs", c.n(2000, 200000), c.n(25, 60))):
            J.append(dict(driver="wgv.drv_lock", lib=exe, variant="full", profile=st + "-atomic", seed=c.seed * 1000 + j, count=n, args=[c.n(2, 3), 0, 1, c.n(1500, 8000), per],
                          module="AtomicTrace.tla", cfg="AtomicTrace.cfg", timeout=120 if c.quick else 1500, tlc_timeout=1500, heap="3g"))
    c.traces(J)
    c.store(["atomic"], (4, 30), (20, 100))

CT = ("wgv.drv_cal", "CalTrace.tla", "CalTrace.cfg")
@check
def T01(c):
    c.mc("Calendar.tla", "Calendar.cfg" if c.quick else "CalendarAll.cfg")
    J = jobs(c, *CT, ["edge"], (8, 15), (40, 40))
    if c.quick: J += jobs(c, *CT, ["days"], (8, 240), (0, 0), args=[0, 1]) + jobs(c, *CT, ["secs"], (8, 560), (0, 0), args=[0, 1])
    else:
        J += [dict(j, args=[1 + 300 * k, 0], count=300) for k in range(76) for j in jobs(c, *CT, ["days"], (1, 300), (1, 300))]
        J += [dict(j, args=[1200 * k, 0], count=1200) for k in range(72) for j in jobs(c, *CT, ["secs"], (1, 1200), (1, 1200))]
    c.traces(J)

UT = ("wgv.drv_csv", "CsvTrace.tla", "CsvTrace.cfg")
@check
def U01(c): c.traces(jobs(c, *UT, [("table", 1), ("text", 1), ("parse", 1)], (8, 30), (60, 80)))

NT = ("wgv.drv_json", "JsonTrace.tla", "JsonTrace.cfg")
@check
def N01(c):
    c.traces(jobs(c, *NT, [("parse", 1), ("big", .15)], (8, 80), (60, 160)))
    for k, (key, what) in enumerate((("array-element", "the text [true] is stored as an empty array"), ("object-member", 'the text {"a":false} is stored as an empty object'),
                                     ("top-level", "the text true is accepted but nothing is stored"))):
        job = jobs(c, *NT, ["bool"], (1, 1), (1, 1), args=[k])[0]
        known(c, job, "boolean-" + key, what)
@check
def N02(c): c.traces(jobs(c, *NT, [("hist", 1), ("many", .1)], (8, 100), (80, 300)))
@check
def N03(c): c.traces(jobs(c, *NT, ["dele"], (8, 150), (80, 400)))

MT = ("wgv.drv_share", "SharedTrace.tla", "SharedTrace.cfg")
@check
def E01(c):
    XT = ("wgv.drv_ext", "ExtTrace.tla", "ExtTrace.cfg")
    c.traces(jobs(c, *XT, ["hist"], (24, 12), (300, 20)) + jobs(c, *XT, ["hist"], (6, 10), (60, 20), variants=("ttree",)))

@check
def M01(c):
    J = jobs(c, *MT, [("hist", 1), ("conc", 1), ("race", .4), ("born", .3)], (4, 12), (30, 60))
    J += jobs(c, *MT, ["names"], (1, 20), (1, 400)) + jobs(c, *MT, ["hist", "conc"], (1, 12), (8, 60), variants=("plain",), args=["nolog"])
    J += [dict(driver=MT[0], lib=build.gates(), variant="gates", profile="steps", seed=c.seed * 1000 + j, count=c.n(10, 60), module=MT[1], cfg=MT[2]) for j in range(c.n(8, 60))]
    SH = (MT[0],) + DT[1:]
    J += jobs(c, *SH, ["sh-" + n for n in ("rec", "share", "link", "idx", "ttreegrow", "hash", "cat", "query", "find", "val", "atomic")], (1, 12), (10, 60))
    J += jobs(c, *SH, ["sh-idx", "sh-share"], (1, 10), (4, 60), variants=("plain",))
    c.traces(J)
