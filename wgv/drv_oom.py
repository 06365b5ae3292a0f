"""Worker: histories over databases that have no room left (A02).
Room is taken away by closing the segment (no area can grow) and occupying the free storage of chosen areas, so that
every allocation of every operation gets to be the one that fails; or by filling a small segment the ordinary way.
usage: python3 -m wgv.drv_oom LIB PROFILE SEED COUNT OUTDIR"""
import os, random, sys, json, ctypes as C
from .store import *
from .drv_store import pick, rh, special

AREAS = dict(rec=0, long=1, keys=2, cell=3, short=4, word=5, dword=6, tnode=7, hdr=8, tmpl=9)
VAR = ("rec", "long", "keys")
class ORec(Recorder):
    def reset(self, size=None, guard=True):
        if self.db: self.drop_db()
        self.db = self.L.vh_guard_new(size or self.size) if guard else self.L.attach_local_database(size or self.size)
        if not self.db: raise RuntimeError("cannot create database")
        self.guard = guard
        self.D = Db(self.L, self.db)
        self.live, self.live_ptr, self.idx, self.lens = {}, {}, {}, {}
        self.idxh, self.next_i = {}, 1
        self.openq, self.next_q = {}, 0
        self.flush(); self.specials = 0
        self.held = {}; self.sealed = None
        self.ev("reset")
        self.base = [self.fixused(a) for a in (3, 4, 5, 6, 7, 8, 9)]
        self.bases = [self.varused(a) for a in (1, 2)]
        self.head0 = self.header()
    def drop_db(self):
        (self.L.vh_guard_free if self.guard else self.L.delete_local_database)(self.db); self.db = None
    def header(self): return C.string_at(self.L.vh_seg_base(self.db), 24)
    def head(self): self.ev("head", r=int(self.header() == self.head0))
    # ---- taking room away and giving it back
    def seal(self):
        f = G.from_address(self.L.vh_seg_base(self.db) + 24)
        if self.sealed is None: self.sealed = f.value; f.value = self.L.vh_seg_size(self.db)
    def unseal(self):
        if self.sealed is not None:
            f = G.from_address(self.L.vh_seg_base(self.db) + 24); f.value = self.sealed; self.sealed = None
    def hog(self, R, name, left):
        """occupy everything free in an area, except for `left` objects"""
        a = AREAS[name]; H = self.held.setdefault(name, [])
        if name in VAR:
            n = 1 << 16
            while n:
                o = self.L.vh_alloc(self.db, a, n)
                if o > 0:
                    H.append(o)
                    if name == "rec":                       # not a data record
                        m = (G * 3).from_address(self.L.vh_ptr(self.db, o)); m[1] = 1; m[2] = 0
                    if len(H) > 200000: raise RuntimeError("area without end")
                else: n = n - 1 if n <= 8 else max(8, n * 3 // 4)
        else:
            while True:
                o = self.L.vh_falloc(self.db, a)
                if not o: break
                H.append(o)
                if len(H) > 200000: raise RuntimeError("area without end")
        for _ in range(min(left, len(H))): self.give(R, name)
    def give(self, R, name):
        H = self.held.get(name)
        if not H: return
        o = H.pop(R.randrange(len(H)))
        if name in VAR: self.L.vh_release(self.db, AREAS[name], o)
        else: self.L.vh_frelease(self.db, AREAS[name], o)
    def stock(self, names):
        """make sure that an area has plenty of room of its own"""
        for n in names:
            a = AREAS[n]; L = self.L; H = []
            if n in VAR: H = [x for x in [L.vh_alloc(self.db, a, 12000)] if x > 0]
            else:
                for _ in range(60 if n in ("hdr", "tmpl") else 700):
                    o = L.vh_falloc(self.db, a)
                    if o > 0: H.append(o)
            for o in H: (L.vh_release if n in VAR else L.vh_frelease)(self.db, a, o)
    def full(self, R, names, left=None):
        if self.sealed is None: self.stock(n for n in sorted(AREAS) if n not in names and not self.held.get(n))
        self.seal()
        for n in names: self.hog(R, n, R.choice([0, 0, 0, 1, 2, 3, 5, 9]) if left is None else left)
        self.ev("full", a=list(names) + ["seg"])
    def room(self, R):
        for n in list(self.held):
            while self.held[n]: self.give(R, n)
        self.unseal(); self.ev("room")
    # ---- operations
    def create(self, n, raw=False, must=False):
        p = (self.L.create_raw_record if raw else self.L.create_record)(self.db, n)
        kw = dict(must=1) if must else {}
        if not p: self.ev("create", h=0, n=n, a=0, **kw); return 0
        h = self.next_h; self.next_h += 1
        self.live[h] = p; self.live_ptr[p] = h; self.lens[h] = n
        self.ev("create", h=h, n=n, a=self.L.vh_offset(self.db, p), **kw)
        return h
    def set(self, h, c, v, new=False):
        e = self.enc(v); op = "setnew" if new else "set"
        if e == ILLEGAL: self.ev(op, h=h, c=c, v=v, r=-99); return -99
        r = (self.L.set_new_field if new else self.L.set_field)(self.db, self.live[h], c, e)
        if r != 0 and v > 0: self.L.free_encoded(self.db, e)
        self.ev(op, h=h, c=c, v=v, r=r)
        return r
    def encfree(self, v):
        e = self.enc(v)
        if e == ILLEGAL: self.ev("enc", v=v, w=NOVAL); return
        w = self.dec(e); self.L.free_encoded(self.db, e)
        self.ev("enc", v=v, w=w)
    def mkidx(self, cols, typ, tmpl=None):
        a = None
        if tmpl is not None:
            a = (G * max(1, len(tmpl)))(*[self.enc(v) for v in tmpl])
            if ILLEGAL in list(a):
                for v, e in zip(tmpl, a):
                    if v > 0 and e != ILLEGAL: self.L.free_encoded(self.db, e)
                self.ev("mkidx", cols=cols, type=typ, tmpl=tmpl, hast=1, r=-99, i=0); return 0
        ca = (G * len(cols))(*cols); n = len(tmpl) if tmpl is not None else 0
        if len(cols) == 1: r = self.L.create_index(self.db, cols[0], typ, a, n)
        else: r = self.L.create_multi_index(self.db, ca, len(cols), typ, a, n)
        i = 0
        if r == 0:
            iid = self.L.multi_column_to_index_id(self.db, ca, len(cols), typ, a, n)
            i = self.next_i; self.next_i += 1
            trim = lambda t: list(t[:max([k + 1 for k, v in enumerate(t) if not (v > 0 and self.vals[v - 1][0] == 'v')] or [0])])
            # the values of a template that exists already are not kept
            drop = tmpl is not None and any(x["tmpl"] is not None and trim(x["tmpl"]) == trim(tmpl) for x in self.idx.values())
            self.idxh[iid] = i; self.idx[i] = dict(id=iid, cols=sorted(cols), type=typ, tmpl=tmpl)
        else: drop = tmpl is not None
        if drop:
            for v, e in zip(tmpl, a):
                if v > 0: self.L.free_encoded(self.db, e)
        self.ev("mkidx", cols=cols, type=typ, tmpl=tmpl or [], hast=int(tmpl is not None), r=r, i=i)
        return i
    def make(self, R):
        """the records JSON documents are made of; given back at once"""
        L, db = self.L, self.db
        k = R.randrange(3); n = R.choice([0, 1, 3, 20])
        vs = [0, 0, 0]
        if k == 2:
            vs = [-rh(R, self) if self.live and R.random() < .5 else self.id(('i', R.randint(0, 9))) for _ in range(3)]; n = 3
            p = L.create_triple(db, *[self.enc(v) for v in vs], 0)
        else: p = (L.create_array if k else L.create_object)(db, n, R.randrange(2), 0)
        r = 1
        if p:
            ok = all(self.dec(L.get_field(db, p, c)) == vs[c] if k == 2 else L.get_field(db, p, c) == 0 for c in range(n))
            r = 0 if L.delete_record(db, p) == 0 and ok else 2
        self.ev("make", r=r, ref=int(any(v < 0 for v in vs)))
    def json(self, R):
        """a document that cannot be completed may stay in parts (so the interface says), but what was there stays as it was"""
        def v(d):
            k = R.random()
            if d and k < .3: return {"k%d" % i + "x" * R.choice([0, 3, 40]): v(d - 1) for i in range(R.randint(0, 4))}
            if d and k < .5: return [v(d - 1) for _ in range(R.randint(0, 4))]
            return R.choice([1, True, None, 1 << 62, 2.5, "short", "long" * 20, ""])
        t = json.dumps({"a": v(3), "b": [v(2)]}).encode()
        p = C.c_void_p(0)
        r = self.L.parse_json_document(self.db, t, C.addressof(p))
        if r == 0: r = 0 if self.L.delete_document(self.db, p.value) == 0 else 5
        self.ev("json", r=r)
        return r == 0
    def docdel(self):
        """deleting a document that was made while there was room"""
        L, db = self.L, self.db; p = C.c_void_p(0)
        if L.parse_json_document(db, b'[[2,[3]]]', C.addressof(p)) != 0: raise ValueError("no document")
        def recs():
            out = []; x = L.get_first_record(db)
            while x: out.append((x, [L.get_field(db, x, c) for c in range(L.get_record_len(db, x))])); x = L.get_next_record(db, x)
            return out
        for c in ([1], [0, 1]): self.mkidx(c, 60)
        was = recs(); self.full(random.Random(0), ["cell"], 0)
        r = L.delete_document(db, p.value)
        self.ev("docdel", r=r, whole=int(recs() == was))
    def attach(self, n, guard):
        db = self.L.vh_guard_new(n) if guard else self.L.attach_local_database(n)
        ok = 0
        if db:
            D = Db(self.L, db)
            ok = int(self.L.vh_seg_size(db) == n and self.L.vh_seg_free(db) <= n)
            p = self.L.create_record(db, 3)
            if p:
                ok = int(ok and self.L.set_int_field(db, p, 1, 77) == 0 and D.decode(self.L.get_field(db, p, 1)) == ('i', 77))
                ok = int(ok and self.L.get_first_record(db) == p)
            else: ok = int(ok and n < 1000000)
            (self.L.vh_guard_free if guard else self.L.delete_local_database)(db)
        self.ev("attach", n=n, hdr=self.L.vh_hdr_size(), r=int(bool(db)), ok=ok)

def val(R, rec, types="iIdsSxubDcv", pref=.12, no=0):
    if rec.live and R.random() < pref:
        h = rh(R, rec)
        if h != no: return -h
    k = R.random()
    if k < .1: return rec.id(('i', (1 << 61) + R.randint(0, 30)))
    if k < .25: return rec.id(('s', b"%d" % R.randint(0, 40) + b"q" * R.choice([0, 0, 40, 300]), R.choice([None, None, b"en", b"w" * 40])))
    return rec.id(rvalue(R, types))
def check_idx(rec):
    for i in sorted(rec.idx):
        if rec.idx[i]["type"] == 50: rec.ttree(i)
        else: rec.hashidx(i)
def look(R, rec):
    rec.snap(); rec.scan(); rec.strs(); check_idx(rec); rec.allidx(); rec.head()
def mk(R, rec, nf, w):
    typ = R.choice([50, 50, 60, 60, 61]); n = 1 if typ == 50 else R.randint(1, min(3, nf))
    cols = R.sample(range(nf), n)
    tmpl = None
    if R.random() < .4:
        k = R.randint(1, nf)
        tmpl = [w if c in cols or R.random() < .4 else rec.id(R.choice([('i', 1), ('s', b"0", None), ('i', (1 << 61) + 1), ('s', b"tmpl" * 12, None), ('s', b"9", b"en")])) for c in range(k)]
        if all(x == w for x in tmpl): tmpl = None
    rec.mkidx(cols, typ, tmpl)
def ops(R, rec, n, nf, w, idx=True, p=.12):
    for _ in range(n):
        k = R.random()
        if k < .18 or not rec.live:
            h = rec.create(R.choice([nf, nf, 1, 3, 10, 30]))
        elif k < .22:
            m = R.choice([nf, 2]); h = rec.create(m, raw=True)
            if h:
                for c in range(m):
                    if rec.set(h, c, val(R, rec, no=h), new=True) != 0: rec.delete(h); break      # a record made this way has to be filled
        elif k < .66:
            h = rh(R, rec)
            if rec.lens[h]: rec.set(h, R.randrange(rec.lens[h]), val(R, rec))
        elif k < .72:
            h = rh(R, rec)
            if rec.lens[h]: rec.set(h, R.randrange(rec.lens[h]), 0)
        elif k < .80:
            h = rh(R, rec); m = rec.lens[h]; r = rec.delete(h)
            if r == 0 and R.random() < .5: rec.create(m, must=True)
        elif k < .86 and idx:
            mk(R, rec, nf, w)
        elif k < .88:
            ts = [i for i in rec.idx if rec.idx[i]["type"] == 50]
            if ts: rec.drop(R.choice(ts))
        elif k < .92: rec.encfree(rec.id(rvalue(R, "idsxub")))
        elif k < .94: rec.make(R)
        elif k < .97: rec.parents(rh(R, rec))
        else: rec.get(h := rh(R, rec), R.randrange(max(1, rec.lens[h])))
        if R.random() < p: look(R, rec)
    look(R, rec)
def finish(R, rec, small=False):
    """with room again everything works; then everything is given back"""
    if not small and R.random() < .15:
        rec.full(R, [R.choice(["rec", "long", "short", "cell", "word", "dword", "tnode", "keys"])])
        for _ in range(5):
            if not rec.json(R): rec.snap(); rec.head(); rec.get(rec.create(2) or rh(R, rec), 0) if rec.live else 0; rec.snap(); return
    if rec.held or rec.sealed is not None: rec.room(R)
    look(R, rec)
    ops(R, rec, R.choice([0, 5, 20]), 3, rec.id(('v', 0)), idx=not R.random() < .5)
    rec.acct()
    for i in sorted(rec.idx):
        if rec.idx[i]["type"] == 50: rec.drop(i)
    for h in sorted(rec.live):
        for c in range(rec.lens[h]):
            if rec.live and rec.dec(rec.L.get_field(rec.db, rec.live[h], c)) < 0: rec.set(h, c, 0)
    for h in sorted(rec.live): rec.delete(h)
    rec.scan(); rec.acct(); rec.head()
def p_full(R, rec):
    """storage areas run full in turns"""
    rec.reset(R.choice([3000000, 6000000]))
    nf = R.choice([1, 2, 3, 5]); w = rec.id(('v', 0))
    idx = R.random() < .7
    for _ in range(R.choice([0, 5, 15, 40])):
        h = rec.create(nf)
        for c in range(nf): rec.set(h, c, val(R, rec))
    if idx:
        for _ in range(R.choice([0, 1, 2])): mk(R, rec, nf, w)
    for _ in range(R.choice([1, 2, 3])):
        names = R.choice([[R.choice(sorted(AREAS))], [R.choice(sorted(AREAS))], R.sample(sorted(AREAS), 2), sorted(AREAS), ["cell"], ["tnode"], ["keys"], ["long"]])
        rec.full(R, names)
        ops(R, rec, R.choice([10, 25, 60]), nf, w, idx)
        if R.random() < .6: rec.room(R)
    finish(R, rec)
def p_one(R, rec):
    """one operation at a time, with 0, 1, 2, ... objects left in one area: every allocation of it fails once"""
    rec.reset(3000000)
    nf = 3; w = rec.id(('v', 0))
    for _ in range(R.choice([1, 3, 12, 30])):
        h = rec.create(nf)
        for c in range(nf): rec.set(h, c, val(R, rec, pref=.2))
    for _ in range(R.choice([0, 1, 2, 3])): mk(R, rec, nf, w)
    for _ in range(R.choice([4, 10])):
        kind = R.choice(["mk", "mk", "set", "set", "setnew", "create", "make", "enc"])
        area = R.choice(dict(mk=["hdr", "cell", "tnode", "keys", "tmpl", "rec"], set=["cell", "tnode", "keys", "long", "short"], setnew=["cell", "tnode", "keys"],
                             create=["rec", "tnode", "keys", "cell"], make=["rec", "cell", "tnode", "keys"], enc=["long", "short", "word", "dword"])[kind])
        for left in range(R.choice([3, 8, 20])):
            if not rec.live: rec.create(nf)
            st = R.getstate(); r = random.Random(R.randrange(1 << 30)); R.setstate(st)
            rec.full(r, [area], left)
            if kind == "mk":
                n = len(rec.idx); mk(r, rec, nf, w); ok = len(rec.idx) > n
            elif kind == "set": h = rh(r, rec); ok = not rec.lens[h] or rec.set(h, r.randrange(rec.lens[h]), val(r, rec, pref=.3)) == 0
            elif kind == "setnew":
                h = rec.create(nf, raw=True); ok = True
                if h:
                    for c in range(nf):
                        if rec.set(h, c, val(r, rec, pref=.3, no=h), new=True) != 0: ok = False; rec.delete(h); break
            elif kind == "create": ok = rec.create(nf) > 0
            elif kind == "enc": rec.encfree(rec.id(rvalue(r, "idsxub"))); ok = left > 2
            else: rec.make(r); ok = left > 12
            look(R, rec)
            rec.room(R)
            if R.random() < .3: rec.acct()
            if ok and r.random() < .7: break
        R.random()
    finish(R, rec)
def p_fill(R, rec):
    """a small segment fills up by itself; nothing is written beyond it"""
    rec.reset(R.choice([240000, 262144, 300000, 400000]))
    nf = R.choice([1, 3, 6]); w = rec.id(('v', 0))
    rec.ev("full", a=sorted(AREAS) + ["seg"])
    kind = R.choice(["rec", "str", "int", "link", "mix", "mix", "idx"])
    if kind in ("idx", "mix"): mk(R, rec, nf, w)
    bad = 0
    for k in range(6000):
        if kind == "rec": r = rec.create(R.choice([1, 5, 50, 400, 3000]))
        else:
            r = rec.create(nf)
            for c in range(nf):
                if not r: break
                v = {"str": lambda: rec.id(('s', b"%d" % R.randrange(1 << 30) + b"z" * R.choice([20, 100, 1000]), R.choice([None, None, b"en"]))), "int": lambda: rec.id(('i', (1 << 62) + R.getrandbits(40))),
                     "link": lambda: -rh(R, rec), "idx": lambda: rec.id(('i', R.randint(0, 99999)))}.get(kind, lambda: val(R, rec))()
                if rec.set(r, c, v) != 0: r = 0
        if not r:
            bad += 1
            if bad > 6: break
        if rec.nev > 2500: break
    look(R, rec)
    ops(R, rec, R.choice([20, 80]), nf, w, p=.03)
    for h in sorted(rec.live, key=lambda _: R.random())[:len(rec.live) // 2]:
        for c in range(rec.lens[h]):
            if rec.dec(rec.L.get_field(rec.db, rec.live[h], c)) < 0: rec.set(h, c, 0)
        m = rec.lens[h]
        if rec.delete(h) == 0 and R.random() < .1: rec.create(m, must=True)
    ops(R, rec, 20, nf, w, p=.05)
    finish(R, rec, True)
def p_tiny(R, rec):
    """databases of any size: refused or usable"""
    rec.reset(1000000)
    hdr = rec.L.vh_hdr_size()
    for _ in range(R.choice([20, 60])):
        k = R.random()
        n = (R.choice([16, 32, 64, 128, 1024, R.randint(16, hdr + 200)]) if k < .2 else R.randint(hdr, hdr + 90000) if k < .5 else R.randint(90000, 400000) if k < .9 else R.randint(1000000, 3000000)) // 16 * 16
        rec.attach(max(16, n), R.random() < .8)
    rec.head(); rec.scan()

def main():
    libp, profile, seed, count, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    os.makedirs(out, exist_ok=True)
    rec = ORec(Lib(libp), out)
    with observing(out):
        for k in range(count):
            if profile == "docdel": rec.reset(3000000); rec.docdel(); break
            globals()["p_" + profile](random.Random("%s-%d-%d" % (profile, seed, k)), rec)
            if rec.nev > 150000: break
    rec.close()
    m = json.load(open(os.path.join(out, "meta.json"))); m["histories"] = k + 1
    json.dump(m, open(os.path.join(out, "meta.json"), "w"))
if __name__ == "__main__": main()
