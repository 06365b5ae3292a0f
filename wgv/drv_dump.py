"""Worker: histories with transparent round trips through dumps (spec/StoreTrace.tla), refusal of unusable dumps,
dumps taken while others write (spec/DumpTrace.tla).
usage: python3 -m wgv.drv_dump LIB PROFILE SEED COUNT OUTDIR [OTHERLIB]"""
import json, os, random, shutil, sys, threading, time
from .store import *
from . import drv_store
from .drv_store import ALL, anyval, rh

class DRec(Recorder):
    """a Recorder whose database now and then travels through a dump; nothing else about it changes"""
    rate, guard, acct_ok = .02, False, False
    def __init__(self, lib, out, size=3000000):
        Recorder.__init__(self, lib, out, size)
        os.chdir(out); self.R = None
    def ev(self, op, **kw):
        Recorder.ev(self, op, **kw)
        if op in ("reset", "moved", "chk", "imp", "refused") or self.guard or self.openq or self.R.random() > self.rate: return
        self.guard = True
        try: self.move()
        finally: self.guard = False
    def reset(self, size=None):
        g, self.guard = self.guard, True
        try: Recorder.reset(self, size)
        finally: self.guard = g
    def rebase(self, db):
        k = self.L.vh_seg_base(db) - self.L.vh_seg_base(self.db)
        self.db = db; self.D = Db(self.L, db)
        self.live = {h: p + k for h, p in self.live.items()}; self.live_ptr = {p: h for h, p in self.live.items()}
    def locks_work(self):
        """the database can be locked and released by anyone"""
        L, db = self.L, self.db; ok = 1
        for a, b in ((L.start_write, L.end_write), (L.start_read, L.end_read), (L.start_write, L.end_write)):
            x = a(db); ok &= int(x != 0 and b(db, x) == 1)
        return ok
    def logging(self, db):
        """sometimes a journal is kept while a dump is imported: it goes on afterwards"""
        return int(self.R.random() < .3 and self.L.start_logging(db) == 0)
    def logged(self, db, lg):
        a = self.L.vh_log_active(db)
        if lg and self.L.stop_logging(db) != 0: return 0
        return int(a == lg)
    def dump(self, name="d"):
        L, db = self.L, self.db
        r = L.dump(db, name.encode())
        mn, mx = G(0), G(0)
        c = L.check_dump(db, name.encode(), C.byref(mn), C.byref(mx))
        self.ev("chk", why="good", r=c, mn=mn.value, mx=mx.value, fsize=os.path.getsize(name), size=L.database_size(db), d=r)
        return mn.value
    def garbage(self):
        """changes that the import undoes"""
        L, db, R = self.L, self.db, self.R
        live = dict(self.live)
        for _ in range(R.randint(0, 60)):
            k = R.random()
            if k < .5 or not live:
                p = L.create_record(db, R.randint(0, 9))
                if p and L.get_record_len(db, p): L.set_field(db, p, 0, self.D.encode(rvalue(R, ALL)))
            elif k < .8:
                p = live[R.choice(sorted(live))]
                if L.get_record_len(db, p): L.set_field(db, p, 0, self.D.encode(rvalue(R, ALL)))
            elif k < .9: 
                h = R.choice(sorted(live))
                if L.delete_record(db, live[h]) == 0: live.pop(h)
            elif k < .95: L.encode_str(db, b"garbage %d %s" % (R.randint(0, 9), b"g" * 40), None)
            else: L.create_index(db, R.randint(0, 3), R.choice([50, 60]), None, 0)
    def move(self, how=None):
        L, R = self.L, self.R
        how = how or R.choice(["dump", "same", "same", "other", "other", "fit", "locked"])
        mn = self.dump()
        if how == "dump": self.ev("moved", how=how, r=0, locks=self.locks_work()); return
        if how in ("same", "locked"):
            self.garbage()
            if how == "locked": L.start_write(self.db)       # whoever held the lock is gone after the import
            lg = self.logging(self.db)
            r = L.import_dump(self.db, b"d")
            self.ev("moved", how=how, r=r, log=self.logged(self.db, lg), locks=self.locks_work())
            return
        size = R.choice([self.size, self.size + 1000000, 2 * self.size, L.database_size(self.db)]) if how == "other" else max(mn, 250000)
        size = max(size, mn)
        db2 = L.attach_local_database(size)
        if not db2: raise MemoryError("database of %d bytes" % size)
        if R.random() < .5:
            for k in range(R.randint(1, 50)): L.create_record(db2, R.randint(0, 20))
            L.encode_str(db2, b"x" * 50, None)
        lg = self.logging(db2)
        r = L.import_dump(db2, b"d")
        log = self.logged(db2, lg)
        old = self.db
        if how == "other":
            self.rebase(db2)
            L.delete_local_database(old)
            self.ev("moved", how=how, r=r, log=log, locks=self.locks_work(), same=int(L.database_size(db2) == size))
        else:                                                # only looked at: there may be no room left
            s = (self.live, self.live_ptr)
            self.rebase(db2)
            self.ev("moved", how=how, r=r, log=log, locks=self.locks_work(), same=int(L.database_size(db2) == size))
            self.snap(); self.scan()
            if self.acct_ok: self.acct(); self.strs()
            drv_store.check_idx(R, self); self.allidx()
            for h in sorted(self.live)[:20]: self.parents(h)
            L.delete_local_database(db2)
            self.db = old; self.D = Db(L, old); self.live, self.live_ptr = s
        if R.random() < .3: self.snap(); self.scan()

def rt(name):
    def f(R, rec):
        rec.R = random.Random(R.random())
        rec.acct_ok = name in ("share", "link", "idx", "ttreegrow", "hash", "val")
        rec.rate = {"cat": .05, "share": .02}.get(name, .02)
        drv_store.PROFILES[name](R, rec)
        if rec.live and not rec.openq:
            rec.guard = True; rec.move(); rec.guard = False
            rec.snap(); rec.scan(); drv_store.check_idx(R, rec)
    return f
RT = {"rt-" + n: rt(n) for n in ("rec", "share", "link", "idx", "ttreegrow", "hash", "cat", "query", "find", "val", "atomic")}

# ---- D02 -----------------------------------------------------------------------------------------------
def fill(R, rec):
    rec.reset(); pool = []
    for _ in range(R.choice([0, 3, 30])):
        h = rec.create(R.choice([1, 2, 3, 40]))
        for c in range(min(3, rec.lens[h])): rec.set(h, c, anyval(R, rec, ALL, .1, pool))
    for _ in range(R.choice([0, 1, 2])): rec.mkidx([R.randrange(3)], R.choice([50, 60]))
HDR = [("mark", 0), ("version", 4), ("features", 8)]
def p_refuse(R, rec):
    rec.R = R; rec.guard = True
    fill(R, rec)
    L, db = rec.L, rec.db
    rec.dump("d"); good = open("d", "rb").read(); n = len(good)
    for h in sorted(rec.live)[:R.randint(0, 5)]: rec.set(h, 0, rec.id(('i', 777)))
    if R.random() < .5: rec.create(3)
    def attempt(why, data=None, path="bad", imp=None):
        """what cannot be used is refused by the check; the database is what it was"""
        if data is not None: open(path, "wb").write(data)
        mn, mx = G(-1), G(-1)
        was = L.vh_seg_free(db), open(path, "rb").read() if data is not None else None
        c = L.check_dump(db, path.encode(), C.byref(mn), C.byref(mx))
        kw = {}
        if imp is not None:                                # these are refused by the import itself
            kw = dict(imp=L.import_dump(db, path.encode()))
        rec.ev("chk", why=why, r=c, mn=mn.value if c == 0 else 0, mx=mx.value if c == 0 else 0, fsize=len(data) if data is not None else 0, size=L.database_size(db), d=0,
               kept=int(data is None or open(path, "rb").read() == was[1]), **kw)
    def flip(at, bit):
        b = bytearray(good); b[at] ^= 1 << bit; return bytes(b)
    attempt("missing", path="nosuchfile", imp=1)
    os.makedirs("dir", exist_ok=True); attempt("missing", path="dir", imp=1)
    for k in R.sample([0, 1, 3, 4, 15, 16, 100, 500], 3): attempt("short", good[:k], imp=1)
    for k in {R.randint(1000, 8191), 8191}: attempt("short", good[:k])
    for k in {8192, n - 1, n - 2, n - 8, R.randrange(8192, n), n - R.randint(1, 200), (n // 8192) * 8192 if n % 8192 else n - 8192}: attempt("cut", good[:k])
    for x in (b"\0", b"x" * 8, good[:8192], bytes(8192), good): attempt("long", good + x)
    for name, off in HDR:
        for _ in range(2): attempt(name, flip(off + R.randrange(4), R.randrange(8)))
    attempt("mark", good[3::-1] + good[4:])                  # the other byte order
    for off in (12, 13, 14, 15): attempt("sum", flip(off, R.randrange(8)))
    for off in [16 + R.randrange(8), 24 + R.randrange(3), 8191, 8192, n - 1, n - R.randint(1, 40), R.randrange(32, n), R.randrange(32, n), R.randrange(32, n), (n // 8192) * 8192 + R.randrange(max(1, n % 8192))]:
        if off < n: attempt("data", flip(off, R.randrange(8)))
    for _ in range(2):                                       # two damaged places, a burst, swapped words
        b = bytearray(good); i, j = R.randrange(64, n - 8), R.randrange(64, n - 8)
        b[i] ^= 255; b[j] ^= 129
        if bytes(b) != good: attempt("data", bytes(b))
        b = bytearray(good); i = R.randrange(64, n - 16); b[i:i + 8], b[i + 8:i + 16] = b[i + 8:i + 16], b[i:i + 8]
        if bytes(b) != good: attempt("data", bytes(b))
        i = R.randrange(64, n - 4000); b = bytearray(good); b[i:i + 4] = bytes(x ^ 0x5a for x in b[i:i + 4]); attempt("data", bytes(b))
    # of another build of the library
    if OTHER:
        d2 = OTHER.attach_local_database(300000)
        OTHER.create_record(d2, 3); OTHER.dump(d2, b"bad"); OTHER.delete_local_database(d2)
        attempt("features", open("bad", "rb").read())
    # does not fit
    small = L.attach_local_database(250000); big = L.attach_local_database(3000000)
    sr = Db(L, small)
    p = L.create_record(small, 2); L.set_field(small, p, 0, sr.encode(('s', b"q" * 50, None))); L.set_field(small, p, 1, sr.encode(('i', 1 << 61)))
    for _ in range(60): L.create_record(big, 600)
    L.dump(big, b"big")
    r = L.import_dump(small, b"big")
    ok = r == -1 and L.get_first_record(small) == p and sr.decode(L.get_field(small, p, 0)) == ('s', b"q" * 50, None) and not L.get_next_record(small, p) and L.create_record(small, 1)
    rec.ev("refused", r=int(bool(ok)), why="fit")
    L.delete_local_database(small)
    mn, mx = G(0), G(0)
    if L.check_dump(db, b"big", C.byref(mn), C.byref(mx)) == 0:      # a segment that is only a little too small
        for d in [8, R.choice([64, 512, 2048]), R.choice([4096, 4104, 8192, 20000])]:
            small = L.attach_local_database(mn.value - d)
            if not small: continue
            f0 = L.vh_seg_free(small); p = L.create_record(small, 1)
            r = L.import_dump(small, b"big")
            rec.ev("refused", r=int(r == -1 and L.get_first_record(small) == p), why="fit-%d" % d)
            L.delete_local_database(small)
    L.delete_local_database(big)
    # refers to another database
    a = L.attach_local_database(300000); b = L.attach_local_database(300000)
    p = L.create_record(a, 1); q = L.create_record(b, 1)
    if L.register_external_db(a, b) == 0:
        L.set_field(a, p, 0, L.encode_external_data(a, b, L.encode_record(b, q)))
        L.dump(a, b"ext")
        x = L.vh_seg_free(db)
        rec.ev("refused", r=int(L.import_dump(db, b"ext") == -1 and L.vh_seg_free(db) == x), why="extern")
    L.delete_local_database(a); L.delete_local_database(b)
    # a dump that cannot be written is reported, an existing dump is kept when the lock cannot be had
    for path in ("nosuchdir/d", "dir", "/dev/full"):
        if path == "/dev/full" and not os.path.exists(path): continue
        rec.ev("refused", r=int(L.dump(db, path.encode()) < 0), why=path)
    rec.ev("chk", why="good", r=L.check_dump(db, b"d", C.byref(G(0)), C.byref(G(0))), mn=n, mx=L.database_size(db), fsize=n, size=L.database_size(db), d=0)
    if R.random() < .25:                                     # the lock is held by somebody: no dump, the old one stays
        lk = L.start_write(db)
        r = L.dump(db, b"d")
        rec.ev("refused", r=int(r < 0 and open("d", "rb").read() == good), why="lock")
        L.end_write(db, lk)
    rec.snap(); rec.scan(); drv_store.check_idx(R, rec); rec.acct()
    rec.ev("refused", r=rec.locks_work(), why="locks")
    # and it goes on working
    for _ in range(5):
        h = rec.create(2); rec.set(h, 0, rec.id(('i', 5)))
    rec.dump("d"); rec.snap()

# ---- D01: dumps while others write -----------------------------------------------------------------------
class Conc:
    def __init__(self, rec): self.rec, self.lock, self.L = rec, threading.Lock(), rec.L
    def ev(self, op, **kw):
        with self.lock: Recorder.ev(self.rec, op, **kw)
    def writer(self, w, vals, ps, pause, db):
        L = self.L
        for v in vals:
            self.ev("call", p=w, v=v)
            lk = L.start_write(db)
            if lk:
                for k, p in enumerate(ps):
                    L.set_int_field(db, p, 0, v)
                    if pause and k == len(ps) // 2: time.sleep(pause)
                L.end_write(db, lk)
            self.ev("ret", p=w, r=int(bool(lk)))
    def contents(self, name, db, n):
        """the values in a dump, by reading it into another database"""
        L = self.L
        mn, mx = G(0), G(0)
        if L.check_dump(db, name, C.byref(mn), C.byref(mx)) != 0: return None
        db2 = L.attach_local_database(L.database_size(db))
        out = []
        if L.import_dump(db2, name) == 0:
            p = L.get_first_record(db2)
            while p and len(out) < n + 10:
                e = L.get_field(db2, p, 0)
                out.append(L.decode_int(db2, e) if L.get_encoded_type(db2, e) == INT else -1)
                p = L.get_next_record(db2, p)
            lk = L.start_write(db2); 
            if not lk: out.append(-2)
            else: L.end_write(db2, lk)
        L.delete_local_database(db2)
        return out
    def dumper(self, d, n, times, db):
        L = self.L; name = b"c%d" % d
        for _ in range(times):
            self.ev("call", p=d, v=0)
            r = L.dump(db, name)
            self.ev("ret", p=d, r=int(r == 0), got=(self.contents(name, db, n) or [-1]) if r == 0 else [])
    def pipedumper(self, d, n, db, between):
        """the dump goes into a pipe that is read slowly: 'between' happens in the middle of it"""
        L = self.L; fifo = "fifo%d" % d
        if os.path.exists(fifo): os.unlink(fifo)
        os.mkfifo(fifo)
        res = []
        def go():
            self.ev("call", p=d, v=0)
            res.append(L.dump(db, fifo.encode()))
        t = threading.Thread(target=go); t.start()
        fd = os.open(fifo, os.O_RDONLY)
        time.sleep(.02)
        buf = os.read(fd, 4096)
        between()
        while True:
            x = os.read(fd, 1 << 16)
            if not x: break
            buf += x
        os.close(fd); t.join(); os.unlink(fifo)
        # a pipe cannot seek: the checksum came last, put it where it belongs
        free = struct.unpack_from("<q", buf, 24)[0]
        if res[0] != 0 or len(buf) != free + 4:              # a dump into a pipe need not work
            self.ev("ret", p=d, r=0); return
        img = bytearray(buf[:free]); img[12:16] = buf[free:free + 4]
        name = b"p%d" % d; open(name, "wb").write(img)
        self.ev("ret", p=d, r=1, got=self.contents(name, db, n) or [-1])

def p_conc(R, rec):
    rec.guard = True; rec.R = R
    L = rec.L
    db = L.attach_local_database(2000000)
    n = R.choice([2, 5, 20])
    first = [L.create_record(db, R.choice([1, 2, 300])) for _ in range(n)]
    for p in first: L.set_int_field(db, p, 0, 1)
    c = Conc(rec); Recorder.ev(rec, "cinit", n=n)
    nw = R.choice([1, 2]); T = []
    for w in range(nw):
        T.append(threading.Thread(target=c.writer, args=(w + 1, [100 * (w + 1) + k for k in range(R.choice([3, 10]))], first, R.choice([0, .0005, .003]), db)))
    for d in range(R.choice([1, 2])):
        T.append(threading.Thread(target=c.dumper, args=(10 + d, n, R.choice([2, 5]), db)))
    for t in T: t.start()
    for t in T: t.join()
    # a writer comes while the dump is being written
    w2 = []
    def between():
        t = threading.Thread(target=c.writer, args=(3, [300], first, 0, db)); t.start(); w2.append(t)
        time.sleep(.03)
    c.pipedumper(20, n, db, between)
    for t in w2: t.join()
    c.dumper(21, n, 1, db)
    L.delete_local_database(db)
PROFILES = dict(RT, refuse=p_refuse, conc=p_conc)
OTHER = None
def main(a):
    global OTHER
    libp, prof, seed, count, out = a[0], a[1], int(a[2]), int(a[3]), os.path.abspath(a[4])
    os.makedirs(out, exist_ok=True)
    rec = DRec(Lib(libp), out)
    if len(a) > 5: OTHER = Lib(a[5])
    with observing(out):
        for k in range(count):
            PROFILES[prof](random.Random("%s/%d/%d" % (prof, seed, k)), rec)
    rec.close()
if __name__ == "__main__": main(sys.argv[1:])
