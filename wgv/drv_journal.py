"""Worker: histories with journal, dumps and recovery (spec/JournalTrace.tla).
usage: python3 -m wgv.drv_journal LIB PROFILE SEED COUNT OUTDIR [HISTORIES.json STEP START]"""
import ctypes as C, hashlib, json, os, random, shutil, sys
from .store import *
from .drv_store import ALL, pick, anyval, twin, rh, rcol

def isomorphism(model, rows, la={}, lb={}):
    """model: {h: [value ids]}, rows: {p: [ids or ('r', p2)]} -> {p: h} or None"""
    if len(model) != len(rows): return None
    def graph(m, ref):
        out = {}
        for x, fs in m.items():
            out[x] = ([v if ref(v) is None else 'R' for v in fs], [ref(v) for v in fs])
        return out
    A = graph(model, lambda v: -v if isinstance(v, int) and v < 0 and v > -800000000 else None)
    B = graph(rows, lambda v: v[1] if isinstance(v, tuple) else None)
    ids = {}
    def number(k): return ids.setdefault(k, len(ids))
    def refine(ca, cb):
        while True:
            na, nb = {}, {}
            for G_, c, n in ((A, ca, na), (B, cb, nb)):
                par = {x: [] for x in G_}
                for x, (_, rs) in G_.items():
                    for k, r in enumerate(rs):
                        if r is not None and r in par: par[r].append((k, c[x]))
                for x, (_, rs) in G_.items():
                    n[x] = number((c[x], tuple(-1 if r is None else c.get(r, -2) for r in rs), tuple(sorted(par[x]))))
            if sorted(na.values()) != sorted(nb.values()): return None
            if len(set(na.values())) == len(set(ca.values())): return na, nb
            ca, cb = na, nb
    def col(G_, l): return {x: number((l.get(x, 0),) + tuple(map(str, fs))) for x, (fs, _) in G_.items()}
    budget = [3000]
    def solve(ca, cb):
        budget[0] -= 1
        if budget[0] < 0: return None
        r = refine(ca, cb)
        if r is None: return None
        ca, cb = r
        cls = {}
        for x, c in cb.items(): cls.setdefault(c, []).append(x)
        amb = [c for c, xs in cls.items() if len(xs) > 1]
        if not amb:
            inv = {c: h for h, c in ca.items()}
            return {p: inv[c] for p, c in cb.items()}
        c = min(amb, key=lambda c: len(cls[c]))
        h = min(x for x, y in ca.items() if y == c)
        for p in cls[c]:
            n = number(('i', budget[0], c))
            m = solve({**ca, h: n}, {**cb, p: n})
            if m: return m
        return None
    A_, B_ = col(A, la), col(B, lb)
    if sorted(A_.values()) != sorted(B_.values()): return None
    a2, b2 = {h: A_[h] for h in A}, {p: B_[p] for p in B}
    # initial colours are not yet a partition fixpoint: start from them
    return solve(a2, b2)

class JRec(Recorder):
    JEV = True
    def __init__(self, lib, out):
        Recorder.__init__(self, lib, out, 1000000)
        self.dir = os.path.join(out, "j"); os.makedirs(self.dir, exist_ok=True)
        os.chdir(self.dir)
        self.jid, self.jcache = {hashlib.md5(b"wgdb").digest(): 1}, (None, 0)   # 1: a journal without entries
        self.cut = None; self.clock = 1000000
        self.key = 0
        self.model, self.metas = {}, {}
        self.other = None
    # ---- files
    @property
    def jname(self): return "wgdb.journal.%d" % self.key
    def fid(self, name):
        try: d = open(name, "rb").read()
        except OSError: return 0
        return self.jid.setdefault(hashlib.md5(d).digest(), len(self.jid) + 1)
    def curid(self):
        try: s = os.stat(self.jname)
        except OSError: return 0
        k = (s.st_ino, s.st_size, s.st_mtime_ns)
        if self.jcache[0] != k: self.jcache = (k, self.fid(self.jname))
        return self.jcache[1]
    def jsize(self):
        try: return os.stat(self.jname).st_size
        except OSError: return 0
    def baks(self):
        out = []
        for f in os.listdir("."):
            p = f.split(".")
            if f.startswith(self.jname + ".") and p[-1].isdigit(): out.append([int(p[-1]), self.fid(f)])
        return sorted(out)
    def mark(self):
        """which file is the current journal: set aside files are known by the time stamps tick() gives them"""
        return self.curid(), sorted((f, os.stat(f).st_mtime) for f in os.listdir(".") if f.startswith(self.jname + ".")), self.curid() != 0
    def tick(self):
        self.clock += 10
        if os.path.exists(self.jname): os.utime(self.jname, (self.clock, self.clock)); self.jcache = (None, 0)
        return self.clock
    def jev(self, op, **kw): Recorder.ev(self, op, j=self.curid(), b=self.baks(), **kw)
    def ev(self, op, **kw):
        if self.cut and op in ("create", "set", "setnew", "del", "enc", "adopt"): self.cuts(op, kw)
        Recorder.ev(self, op, j=self.curid(), **kw)
        if op in ("create", "set", "setnew", "del"):
            self.remodel(op, kw)
            if self.jc and self.L.vh_log_active(self.db): self.jc["to"] = dict(self.model)
    def remodel(self, op, kw):
        if op == "del":
            if kw["r"] == 0: self.model.pop(kw["h"], None)
        elif kw["h"] in self.live: self.model[kw["h"]] = self.fields(kw["h"])
    # ---- contents of another database
    def rows(self, db):
        L, D, out = self.L, Db(self.L, db), {}
        p = L.get_first_record(db)
        while p and len(out) < len(self.live) + 500:
            fs = []
            for c in range(L.get_record_len(db, p)):
                e = L.get_field(db, p, c)
                if e == ILLEGAL: fs.append(NOVAL); continue
                t = D.decode(e)
                fs.append(t if t[0] == 'r' else self.id(t))
            out[p] = fs
            p = L.get_next_record(db, p)
        return out
    def witness(self, model, rows, la={}, lb={}):
        m = isomorphism(model, rows, la, lb) or isomorphism(model, rows)
        if m is None:
            # no isomorphism: pair greedily, the specification decides
            m, left = {}, sorted(model, key=lambda h: h)
            for p, fs in rows.items():
                h = next((x for x in left if [v if v >= 0 else 0 for v in model[x]] == [v if not isinstance(v, tuple) else 0 for v in fs]), None)
                if h is not None: left.remove(h); m[p] = h
            for p in rows:
                if p not in m: m[p] = left.pop(0) if left else 777000 + len(m)
        ps = sorted(rows, key=lambda p: m[p])
        return ps, [m[p] for p in ps], [[-m.get(v[1], 888888888) if isinstance(v, tuple) else v for v in rows[p]] for p in ps]
    def newdb(self, size=None, perturb=None):
        db = self.L.attach_local_database(size or self.size_)
        if not db: raise MemoryError("cannot create database")
        if perturb: perturb_db(perturb, self.L, db)
        return db
    def reset(self, size=None, name=None):
        for f in os.listdir("."):
            if os.path.isdir(f): shutil.rmtree(os.path.join(self.dir, f))
            else: os.unlink(f)
        self.size_ = size or 1000000
        self.jcache = (None, 0); self.model = {}; self.since = {}; self.dstate = {}; self.cut = None
        self.jc, self.jst = None, {}
        Recorder.reset(self, self.size_)
        self.old, self.last, self.replayed = False, 0, 0
    # ---- journal operations
    def start(self): t = self.tick(); was = self.mark(); r = self.L.start_logging(self.db); self.rot(was); self.jev("start", r=r, t=t); self.last = self.jsize()
    def stop(self): self.jev("stop", r=self.L.stop_logging(self.db))
    def rot(self, was):
        """a journal that was set aside is needed by every dump made before"""
        now = self.mark()
        if now[1:] == was[1:]:
            if self.jc: self.jc["ok"] &= self.jc["to"] == self.model
            return
        if was[0]:
            for d in self.since: self.since[d].append(was[0])
            self.jst.setdefault(was[0], []).append(self.jc)
        self.jc = dict(frm=dict(self.model), to=dict(self.model), ok=True)
    def chain(self, d, js):
        """the contents that dump d and the journals js lead to, None if they do not belong together"""
        S = self.dstate[d][0] if d else {}
        for j in js:
            if j == 1: continue
            es = list(self.jst.get(j, [])) + ([self.jc] if j == self.curid() and self.jc else [])
            e = next((e for e in es if e["ok"] and e["frm"] == S), None)
            if e is None: return None
            S = e["to"]
        return S
    def dump(self, d, path=None):
        t = self.tick(); was = self.mark()
        r = self.L.dump(self.db, (path or d).encode())
        if self.mark()[1:] != was[1:]: self.rot(was)
        ok = int(path is None)
        if ok and r == 0:
            self.since[d] = []; self.dstate[d] = (dict(self.model), dict(self.live), dict(self.live_ptr), dict(self.lens), self.L.vh_seg_base(self.db))
        self.jev("dump", d=d, r=r, ok=ok, t=t)
    def imp(self, d, bad=None):
        t = self.tick(); was = self.mark()
        r = self.L.import_dump(self.db, (bad or d).encode())
        if bad: self.jev("import", d=d, r=r, ok=0, t=t); return
        m, lv, lp, ln, base = self.dstate[d]
        k = self.L.vh_seg_base(self.db) - base
        self.model = dict(m); self.lens = dict(ln)
        self.live = {h: p + k for h, p in lv.items()}; self.live_ptr = {p + k: h for p, h in lp.items()}
        if self.mark()[1:] != was[1:]: self.rot(was)
        if r == 0: self.since[d] = []
        self.jev("import", d=d, r=r, ok=1, t=t); self.last = self.jsize()
    def crash(self):
        self.closeall()
        self.L.delete_local_database(self.db)
        self.db = self.newdb(); self.D = Db(self.L, self.db)
        self.live, self.live_ptr, self.lens, self.model, self.idx, self.idxh = {}, {}, {}, {}, {}, {}
        self.jev("crash")
    def closeall(self): pass
    def files(self):
        out = {self.fid(self.jname): self.jname}
        for s, i in self.baks(): out[i] = "%s.%d" % (self.jname, s)
        out.pop(0, None)
        return out
    def recover(self, d, js, model=None, size=None, perturb=None, must=1):
        """restore dump d (or nothing) in another database and replay journals js (ids)"""
        fs = self.files()
        if any(j not in fs for j in js): return
        if model is None:
            model = self.chain(d, js)
            if model is None: return                     # they do not belong together: replaying them means nothing
        db2 = self.newdb(size, perturb if not d else None)
        r = 0
        if d: r = self.L.import_dump(db2, d.encode())
        for j in js:
            if r == 0: r = self.L.replay_log(db2, fs[j].encode())
        rows = self.rows(db2)
        now = model == self.model
        ps, hs, vs = self.witness(model, rows, {h: self.L.vh_meta(self.db, self.live[h]) for h in model} if now else {}, {p: self.L.vh_meta(db2, p) for p in rows} if now else {})
        ms = [self.L.vh_meta(db2, p) for p in ps]
        om = [self.L.vh_meta(self.db, self.live[h]) if h in self.live else -1 for h in hs] if now else ms
        self.L.delete_local_database(db2)
        self.jev("recover", d=d or "", js=js, r=r, hs=hs, fs=vs, ms=ms, om=om, must=must)
    def replay(self, js, model):
        """replay one journal into this database"""
        f = self.files()[js[0]]
        t = self.tick(); was = self.mark()
        f = self.files()[js[0]]
        r = self.L.replay_log(self.db, f.encode())
        rows = self.rows(self.db)
        ps, hs, vs = self.witness(model, rows)
        self.live = dict(zip(hs, ps)); self.live_ptr = dict(zip(ps, hs)); self.model = dict(zip(hs, vs)); self.lens = {h: len(v) for h, v in zip(hs, vs)}
        if self.mark()[1:] != was[1:]: self.rot(was)
        self.jev("replay", js=js, r=r, ok=1, hs=hs, fs=vs, t=t, **{"as": [self.L.vh_offset(self.db, p) for p in ps]})
    def badreplay(self, path):
        t = self.tick()
        r = self.L.replay_log(self.db, path.encode())
        self.jev("replay", js=[], r=r, ok=0, hs=[], fs=[], t=t, **{"as": []})
    # ---- crash points
    def cuts(self, op, kw):
        """the journal as it was at several moments of the operation that just ended"""
        s, prev = self.jsize(), self.last
        if s <= prev: return
        R = self.cut
        data = open(self.jname, "rb").read()
        ks = sorted(set([prev] + [s - 1] + [R.randint(prev, s - 1) for _ in range(2)])) if R.random() < .8 else sorted({prev, s - 1} | set(R.sample(range(prev, s), min(16, s - prev))))
        single = int(op in ("create", "del") or op in ("set", "setnew") and (kw["v"] <= 0 or self.vals[kw["v"] - 1][0] in "fcDTv" or self.vals[kw["v"] - 1][0] == 'i' and -(1 << 60) <= self.vals[kw["v"] - 1][1] < (1 << 60)))
        for k in ks: self.onecut(data[:k], int(k == prev), int(single and k > prev or k == s - 1 and kw.get("r", 0) == 0 and op != "enc"), k)
        self.last = s
    def onecut(self, data, whole, single, k):
        open("cut", "wb").write(data)
        db2 = self.newdb(300000)
        r = self.L.import_dump(db2, b"base") if self.base_dump else 0
        r = self.L.replay_log(db2, b"cut")
        ps, hs, vs = self.witness(self.model, self.rows(db2))
        self.L.delete_local_database(db2)
        Recorder.ev(self, "cut", k=k, r=r, whole=whole, single=single, hs=hs, fs=vs)
    # ---- JSON-like records: whatever the library made becomes part of the state
    def adopt(self):
        p, new = self.L.get_first_record(self.db), []
        while p and len(new) < 10000:
            if p not in self.live_ptr: new.append(p)
            p = self.L.get_next_record(self.db, p)
        for p in new:
            h = self.next_h; self.next_h += 1
            self.live[h] = p; self.live_ptr[p] = h; self.lens[h] = self.L.get_record_len(self.db, p)
            Recorder.ev(self, "create", h=h, n=self.lens[h], a=self.L.vh_offset(self.db, p), j=self.curid(), ad=1)
        for p in new:
            h = self.live_ptr[p]; self.model[h] = self.fields(h)
            for c, v in enumerate(self.model[h]):
                if v != 0: Recorder.ev(self, "set", h=h, c=c, v=v, r=0, j=self.curid(), ad=1)
        if new and self.jc and self.L.vh_log_active(self.db): self.jc["to"] = dict(self.model)

def perturb_db(R, L, db):
    """a database without records whose allocators are in another state"""
    ps = [L.create_record(db, R.randint(0, 12)) for _ in range(R.randint(1, 30))]
    for k in range(R.randint(0, 20)): L.encode_str(db, b"perturbation %d %s" % (k, b"x" * R.randint(0, 60)), None)
    for k in range(R.randint(0, 5)): L.encode_int(db, (1 << 61) + k); L.encode_double(db, float(k))
    R.shuffle(ps)
    for p in ps: L.delete_record(db, p)

def step(R, rec, W, lens, pool, types=ALL):
    op = pick(R, W)
    if op == "create" or not rec.live: rec.create(R.choice(lens), raw=False); return
    h = rh(R, rec)
    if op == "set":
        v = anyval(R, rec, types, .15, pool); c = rcol(R, rec, h, .03); rec.set(h, c, v)
        if R.random() < .15 and v > 0: rec.set(h, c, twin(R, rec, v))
    elif op == "setnew": rec.set(h, rcol(R, rec, h), anyval(R, rec, types, .1, pool), new=True)
    elif op == "typed": rec.set_typed(h, rcol(R, rec, h), anyval(R, rec, "iiddssS", 0, pool))
    elif op == "clear": rec.set(h, rcol(R, rec, h), 0)
    elif op == "delete": rec.delete(h)
    elif op == "enc": rec.encfree(anyval(R, rec, types, 0, pool))
    elif op == "raw":
        h = rec.create(R.choice(lens), raw=True)
        for c in range(rec.lens[h]): rec.set(h, c, anyval(R, rec, types, .05, pool), new=True)
W1 = dict(create=4, set=7, setnew=1, typed=1, clear=1, delete=2, enc=1, raw=.4)
W2 = dict(create=2, set=7, setnew=1, typed=1, clear=2, delete=5, enc=2, raw=.4)
LENS_ = [[0, 1, 2, 3], [1, 3], [2, 5, 9], [1, 40]]

# ---- J01 ------------------------------------------------------------------------------------------
def p_replay(R, rec):
    rec.reset(R.choice([400000, 1000000])); rec.base_dump = False
    lens = R.choice(LENS_); pool = []
    types = R.choice([ALL, ALL, "sxub", "id", "S", "iI", "b", "sSv"])
    base = ""
    if R.random() < .5:
        for _ in range(R.choice([5, 30])): step(R, rec, R.choice([W1, W2]), lens, pool, types)
        base = "base"
        if R.random() < .5: rec.start(); 
        rec.dump(base)
        if R.random() < .5 and rec.L.vh_log_active(rec.db): rec.stop()
    if not rec.L.vh_log_active(rec.db): rec.start()
    for ph in range(R.choice([1, 2, 3])):
        W = R.choice([W1, W2])
        for _ in range(R.choice([10, 40, 120])): step(R, rec, W, lens, pool, types)
        rec.snap()
        rec.recover(base, [rec.curid()], size=R.choice([None, 2000000]), perturb=R if R.random() < .6 else None)
    rec.acct() if not base and False else None
    if R.random() < .3:                                    # and it goes on working
        rec.stop(); rec.start()
        for _ in range(10): step(R, rec, W1, lens, pool, types)
        rec.recover(base, [rec.curid()])
def p_churn(R, rec):
    """few cells taken, released and given back unused over and over: addresses of the log come back with other translations"""
    rec.reset(400000); rec.base_dump = False
    rec.start()
    types = R.choice(["d", "d", "i", "s", "S", "x", "dis"])
    for _ in range(R.choice([1, 2, 3])): rec.create(R.choice([2, 4, 8]))
    p = R.choice([.1, .25])
    for ph in range(R.choice([1, 2, 4])):
        pool = []
        for _ in range(R.choice([6, 12, 25])):
            h = rh(R, rec); k = R.random()
            v = rec.id(rvalue(R, types)) if types != "d" else rec.id(('d', dbits(R.randint(0, 400) / 4)))
            if k < p: rec.encfree(v)
            elif k < .45: rec.set(h, R.randrange(rec.lens[h]), 0)
            elif k < .48: rec.set(rec.create(R.choice([2, 4])), 0, v)
            elif k < .5 and len(rec.live) > 1: rec.delete(h)
            else: rec.set(h, R.randrange(rec.lens[h]), v)
        rec.recover("", [rec.curid()], perturb=R if R.random() < .4 else None)
JSONS = [b'[1,2,[3,{"a":4}]]', b'{"a":1,"b":[true,2.5,"x"],"c":{"d":"some longer string than thirty two characters"}}', b'[{"k":1},{"k":2},[[]],{}]', b'["%s"]' % (b"q" * 50)]
def p_special(R, rec):
    """records with markings: arrays, objects, documents, parameters, index templates"""
    rec.reset(1000000); rec.base_dump = False
    L = rec.L
    rec.start()
    pool = []
    for _ in range(R.choice([5, 20, 50])):
        k = R.random(); db = rec.db
        if k < .4: step(R, rec, W1, [1, 2, 3], pool)
        elif k < .55: L.parse_json_document(db, R.choice(JSONS), None); rec.adopt()
        elif k < .62: p = C.c_void_p(0); L.parse_json_param(db, R.choice(JSONS), C.addressof(p)); rec.adopt()
        elif k < .70: L.create_array(db, R.randint(0, 4), R.randint(0, 1), R.choice([0, 0, 1])); rec.adopt()
        elif k < .78: L.create_object(db, R.randint(0, 4), R.randint(0, 1), R.choice([0, 0, 1])); rec.adopt()
        elif k < .86:
            e = [rec.enc(rec.id(rvalue(R, "IS"))) for _ in range(3)]
            L.create_triple(db, e[0], e[1], e[2], R.choice([0, 0, 1])); rec.adopt()
        elif k < .93:
            e = [rec.enc(rec.id(rvalue(R, "IS"))) for _ in range(2)]
            L.create_triple(db, 0, e[0], e[1], R.choice([0, 0, 1])); rec.adopt()
        else:
            w = rec.id(('v', 0)); c = R.randint(0, 1)
            t = [w, w]; t[1 - c] = rec.id(('i', R.randint(0, 9)))
            if R.random() < .7: rec.mkidx([c], R.choice([50, 60]), t)
            elif rec.idx: rec.drop(R.choice(sorted(rec.idx)))
    rec.snap()
    rec.recover("", [rec.curid()], perturb=R if R.random() < .5 else None)
# ---- J02 ------------------------------------------------------------------------------------------
def p_cuts(R, rec):
    rec.reset(400000); rec.base_dump = False
    pool = []; types = R.choice([ALL, "sSxu", "iId", "b", "S"])
    if R.random() < .4:
        for _ in range(R.choice([3, 10])): step(R, rec, W1, [1, 2, 3], pool, types)
        rec.dump("base"); rec.base_dump = True
    rec.start()
    rec.cut = R
    for _ in range(R.choice([5, 12, 25])): step(R, rec, R.choice([W1, W2]), R.choice([[1, 2, 3], [0, 1, 70]]), pool, types)
    rec.cut = None
    rec.recover("base" if rec.base_dump else "", [rec.curid()])
    data = open(rec.jname, "rb").read()
    # what is no journal is refused and reported, the data stays
    for _ in range(R.randint(1, 4)):
        bad = R.choice([b"", b"w", b"wgd", b"wgdc" + data[4:], b"WGDB" + data[4:], b"\0\0\0\0" + data[4:], b"xwgdb" + data[4:], None, "dir"])
        if bad == "dir": os.makedirs("baddir", exist_ok=True)
        elif bad is not None: open("bad", "wb").write(bad)
        db2 = rec.newdb(300000)
        if rec.base_dump: rec.L.import_dump(db2, b"base")
        m = rec.dstate["base"][0] if rec.base_dump else {}
        r = rec.L.replay_log(db2, {None: b"nosuchfile", "dir": b"baddir"}.get(bad, b"bad"))
        n = len(rec.rows(db2)); rec.L.delete_local_database(db2)
        Recorder.ev(rec, "refused", r=int(r == -1 and n == len(m)), j=rec.curid())
    # an entry of an unknown kind after the last operation is reported, everything before it is there
    for tail in R.sample([b"\x60", b"\xa0", b"\xe0", b"\x7f", b"\x1f\x01\x01", b"\x00\x05", b"\x0f\x05", b"\x20", b"\x80"], 2):
        rec.onecut(data + tail, 0, 1, len(data))
# ---- J03 ------------------------------------------------------------------------------------------
def act(R, rec, a, pool):
    if a == "op": step(R, rec, R.choice([W1, W2]), [1, 2, 3], pool)
    elif a == "start": rec.start()
    elif a == "stop": rec.stop()
    elif a == "dump":
        d = "d%d" % R.randint(1, 3); rec.dump(d)
    elif a == "baddump":
        if R.random() < .5 or not os.path.exists("/dev/full"): rec.dump("x", path="nosuchdir/x")
        else: rec.dump("x", path="/dev/full")
    elif a == "rmj" and not rec.L.vh_log_dirty(rec.db) and not rec.L.vh_log_active(rec.db) and rec.curid():
        os.unlink(rec.jname); rec.jc = None; rec.jev("rmj")
    elif a == "import" and rec.dstate: rec.imp(R.choice(sorted(rec.dstate)))
    elif a == "badimport":
        if R.random() < .5: rec.imp("x", bad="nosuchfile")
        else: open("short", "wb").write(b"\0" * R.choice([0, 10, 100])); rec.imp("x", bad="short")
    elif a == "badreplay":
        k = R.random()
        if k < .5: rec.badreplay("nosuchfile")
        else: open("short", "wb").write(R.choice([b"", b"wg", b"xxxx"])); rec.badreplay("short")
    rec.jev("logstate", a=rec.L.vh_log_active(rec.db), dirty=rec.L.vh_log_dirty(rec.db))
def recover_all(R, rec):
    """every dump with the journals since (the latest must work when logging was on all the time)"""
    cur = rec.curid()
    for d in sorted(rec.since):
        rec.recover(d, rec.since[d] + ([cur] if cur else []), must=0)
    if cur: rec.recover("", [cur], must=0)
def p_rotate(R, rec):
    rec.reset(300000); rec.base_dump = False
    pool = []
    A = dict(op=10, start=R.choice([.3, 2]), stop=R.choice([.1, 1]), dump=R.choice([.5, 2]), baddump=.5, badreplay=.3, badimport=.3, rmj=.4)
    A["import"] = .7
    if R.random() < .8: act(R, rec, "start", pool)
    for _ in range(R.choice([10, 25, 60])):
        act(R, rec, pick(R, A), pool)
        if R.random() < .12: recover_all(R, rec)
        if R.random() < .06 and rec.since: afresh(R, rec)
    recover_all(R, rec); rec.snap()
def afresh(R, rec, start=None):
    """the process dies; a new database is made from the last dump and the journals since"""
    if start is None: start = R.random() < .5
    d = list(rec.since)[-1]; cur = rec.curid(); js = rec.since[d] + ([cur] if cur else [])
    if len(set(js)) != len(js) or any(j not in rec.files() for j in js): return
    model = dict(rec.model)
    # only when the journals do lead here
    if rec.chain(d, js) is None: return
    ms = [rec.chain(d, js[:k + 1]) for k in range(len(js))]
    rec.crash()
    if start: rec.start()
    rec.imp(d)
    for k, j in enumerate(js):
        if j not in rec.files(): return
        rec.replay([j], ms[k])
    rec.since[d] = [j for j in js if j != rec.curid()]
def p_model(R, rec, hist=()):
    """a behaviour of spec/JournalModel.tla"""
    rec.reset(300000); rec.base_dump = False
    pool = []
    for a in hist:
        if a == "dump": rec.dump("d1"); rec.jev("logstate", a=rec.L.vh_log_active(rec.db), dirty=rec.L.vh_log_dirty(rec.db))
        elif a == "recover":
            if rec.since: afresh(R, rec, False)
        elif a == "op" and R.random() < .5: rec.create(R.choice([1, 2]))
        else: act(R, rec, a, pool)
    recover_all(R, rec); rec.snap()
PROFILES = {k[2:]: v for k, v in list(globals().items()) if k.startswith("p_")}
def main(a):
    libp, prof, seed, count, out = a[0], a[1], int(a[2]), int(a[3]), os.path.abspath(a[4])
    os.makedirs(out, exist_ok=True)
    rec = JRec(Lib(libp), out)
    with observing(out):
        if prof == "model":
            hs = json.load(open(a[5])); st, first = int(a[6]), int(a[7])
            for k, x in enumerate(hs[first::st]): p_model(random.Random("%d/%d" % (seed, k)), rec, x)
        else:
          for k in range(count):
            PROFILES[prof](random.Random("%s/%d/%d" % (prof, seed, k)), rec)
    rec.close()
if __name__ == "__main__": main(sys.argv[1:])
