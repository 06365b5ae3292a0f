"""Worker: databases in shared memory (M01).
Profiles sh-NAME: the histories of drv_store.NAME, during which the work passes from handle to handle and from process to
process (spec/StoreTrace.tla).  Others: histories of attaching, detaching, deleting by several processes, with
concurrent access under the locks (spec/SharedTrace.tla).
usage: python3 -m wgv.drv_share LIB PROFILE SEED COUNT OUTDIR"""
import os, random, sys, json, ctypes as C, signal, time, mmap, struct, multiprocessing
from .store import *
from . import drv_store

libc = C.CDLL(None, use_errno=True)
libc.shmat.restype = P; libc.shmat.argtypes = [I, P, I]; libc.shmdt.argtypes = [P]; libc.shmctl.argtypes = [I, I, P]; libc.shmget.argtypes = [I, C.c_size_t, I]
BASE = 0x57000000 + ((os.getpid() & 0xfffff) << 4)
MARK, INIT = 1232319011, 1916950123
def table():
    """segments of the system: {id: (key, size, mode, attachments, owner)}"""
    T = {}
    for x in open("/proc/sysvipc/shm").read().split("\n")[1:]:
        f = x.split()
        if f: T[int(f[1])] = (int(f[0]), int(f[3]), int(f[2], 8) & 0o777, int(f[6]), int(f[7]), int(f[4]))
    return T
def shmid(a):
    """the segment at an address"""
    for x in open("/proc/self/maps"):
        if int(x.split("-")[0], 16) == a: return int(x.split()[4])
    raise ValueError("no segment where the database is")
def remove(i):
    """root may lack the privilege to remove what others own"""
    t = table().get(i)
    if libc.shmctl(i, 0, None) == 0 or not t: return
    pid = os.fork()
    if pid == 0:
        try: os.setuid(t[4]); libc.shmctl(i, 0, None)
        finally: os._exit(0)
    os.waitpid(pid, 0)
def caps():
    e = int(next(x for x in open("/proc/self/status") if x.startswith("CapEff")).split()[1], 16)
    return [e >> 21 & 1, e >> 15 & 1]                       # CAP_SYS_ADMIN, CAP_IPC_OWNER
def sweep(mine=False):
    """remove what this process, or one that was killed, left behind"""
    live = {int(p) & 0xfffff for p in os.listdir("/proc") if p.isdigit()}
    for i, t in table().items():
        if t[0] & 0xff000000 == 0x57000000 and (t[3] == 0 and (t[0] >> 4) & 0xfffff not in live or mine and t[0] & ~15 == BASE): remove(i)
def die_with_parent(): libc.prctl(1, signal.SIGKILL)

# ---- histories of drv_store that wander between handles and processes ----------------------------------------------
class MRec(Recorder):
    rate = .02
    def __init__(self, lib, out):
        Recorder.__init__(self, lib, out, 6000000)
        self.R, self.guard, self.handles, self.name = None, True, [], b"%d" % BASE
        self.top, self.moves = os.getpid(), 0
        self.rd, self.wr = os.pipe()
    def attach(self):
        db = self.R.choice([lambda: self.L.attach_existing_database(self.name), lambda: self.L.attach_database(self.name, 0),
                            lambda: self.L.attach_database(self.name, self.size)])()
        if not db: raise ValueError("an existing database cannot be attached")
        self.handles.append(db)
        return db
    def leave(self, db):
        self.handles.remove(db)
        if self.L.detach_database(db) != 0: raise ValueError("detach failed")
    def drop_db(self):
        for db in list(self.handles): self.leave(db)
        if self.db and self.L.delete_database(self.name) != 0: raise ValueError("delete failed")
        self.db = None
    def reset(self, size=None):
        self.guard = True; self.drop_db()
        self.db = self.L.attach_database(self.name, size or self.size)
        if not self.db: raise RuntimeError("cannot create database")
        self.handles = [self.db]
        self.D = Db(self.L, self.db)
        self.live, self.live_ptr, self.idx, self.lens = {}, {}, {}, {}
        self.idxh, self.next_i = {}, 1
        self.openq, self.next_q = {}, 0
        self.flush(); self.specials = 0
        self.ev("reset")
        self.base = [self.fixused(a) for a in (3, 4, 5, 6, 7, 8, 9)]
        self.bases = [self.varused(a) for a in (1, 2)]
        self.guard = False
    def rebase(self, db):
        k = self.L.vh_seg_base(db) - self.L.vh_seg_base(self.db)
        self.db = db; self.D = Db(self.L, db)
        self.live = {h: p + k for h, p in self.live.items()}; self.live_ptr = {p: h for h, p in self.live.items()}
    def ev(self, op, **kw):
        Recorder.ev(self, op, **kw)
        if self.guard or op == "reset" or self.openq or self.R.random() > self.rate: return
        self.guard = True
        try: self.wander()
        finally: self.guard = False
    def wander(self):
        R = self.R; k = R.random(); self.moves += 1
        if k < .3 or len(self.handles) < 2 and k < .6: self.rebase(self.attach())
        elif k < .45: self.rebase(R.choice(self.handles))
        elif k < .6: self.leave(R.choice([x for x in self.handles if x != self.db]))
        else: self.fork()
        while len(self.handles) > 4: self.leave(R.choice([x for x in self.handles if x != self.db]))
    def fork(self):
        """another process goes on; this one stays attached, detaches, or ends as it is"""
        how = self.R.choice(["stay", "leave", "kill", "kill"])
        self.flush()
        pid = os.fork()
        if pid:
            if how == "leave":
                for db in list(self.handles): self.leave(db)
            if os.getpid() == self.top: return finish(self)
            if how == "kill": os.kill(os.getpid(), signal.SIGKILL)
            os.waitpid(pid, 0)
            os._exit(0)
        signal.alarm(200)
        old = list(self.handles); was = self.db
        db = self.attach(); self.rebase(db)
        for x in old: self.leave(x)                     # the attachments that the fork copied
def finish(rec):
    """the first process waits for the last one"""
    os.close(rec.wr)
    b = b""
    while True:
        x = os.read(rec.rd, 100)
        if not x: break
        b += x
    sweep(True)
    if b: os._exit(int(b))
    os.kill(os.getpid(), signal.SIGSEGV)                # nobody came to the end

def sh(name):
    def f(R, rec):
        rec.R = random.Random(R.random()); rec.rate = dict(cat=.05).get(name, .03)
        drv_store.PROFILES[name](R, rec)
        if rec.live and not rec.openq:
            rec.guard = True; rec.fork(); rec.snap(); rec.scan(); drv_store.check_idx(R, rec); rec.guard = False
    return f

# ---- attaching and detaching -----------------------------------------------------------------------------------------
class Die(Exception): pass
def child(L, conn, uid, gid, shm, n):
    """a process that carries out commands"""
    if uid: os.setgroups([]); os.setgid(gid); os.setuid(uid)
    die_with_parent(); signal.alarm(200)
    H, nh = {}, 0
    D = {}
    os.umask(0o27)
    cnt = lambda: struct.unpack_from("q", shm, 0)[0]
    def rows(db):
        out = []; r = L.get_first_record(db)
        while r:
            if L.get_record_len(db, r) != 2: raise ValueError("a record of another length")
            out.append((L.decode_int(db, L.get_field(db, r, 0)), D[db].decode(L.get_field(db, r, 1)), r)); r = L.get_next_record(db, r)
            if len(out) > 100000: raise ValueError("endless scan")
        out.sort(key=lambda x: x[0])
        if [x[0] for x in out] != list(range(len(out))): raise ValueError("records %s" % [x[:2] for x in out][:50])
        return out
    # numbers of all sizes as values of all kinds
    def enc(v): return ("i", v) if v % 4 == 0 else ("i", v << 40) if v % 4 == 1 else ("s", b"%d" % v, None) if v % 4 == 2 else ("s", b"%d" % v + b"x" * 100, b"%d" % v)
    def num(t):
        v = (t[1] if t[1] < 1 << 40 else t[1] >> 40) if t[0] == "i" else int(t[1].rstrip(b"x"))
        return v if enc(v) == t else -1
    def op(db, kind, k, v):
        """one change or look under the lock -> (ticket, event)"""
        w = kind != "see"
        lk = (L.start_write if w else L.start_read)(db)
        if not lk: return None
        t = cnt()
        x = rows(db); e = dict(was=[num(y[1]) for y in x])
        if kind == "add":
            r = L.create_record(db, 2)
            ok = r and L.set_field(db, r, 0, L.encode_int(db, len(x))) == 0 and L.set_field(db, r, 1, D[db].encode(enc(v))) == 0
            if not ok: raise ValueError("cannot add a record")
            e.update(v=v)
        elif kind == "set":
            k = k % len(x) if x else 0
            if x:
                if L.set_field(db, x[k][2], 1, D[db].encode(enc(v))) != 0: raise ValueError("cannot set a field")
                e.update(k=k + 1, v=v)
            else: kind = "see"
        elif kind == "del":
            if x:
                if L.delete_record(db, x[-1][2]) != 0: raise ValueError("cannot delete a record")
            else: kind = "see"
        if w: struct.pack_into("q", shm, 0, t + 1)
        if (L.end_write if w else L.end_read)(db, lk) != 1: raise ValueError("unlock failed")
        return (t, int(w)), dict(e, op=kind)
    while True:
        c = conn.recv(); a = c[1:]; c = c[0]
        try:
            r = None
            if c == "attach":
                kind, name, size, perm, mn = a
                if mn is not None: db = L.attach_memsegment(name, mn, size, 1, 0, perm)
                elif kind == "exist": db = L.attach_existing_database(name)
                elif kind == "logged": db = L.attach_logged_database_mode(name, size, perm) if perm else L.attach_logged_database(name, size)
                else: db = L.attach_database_mode(name, size, perm) if perm else L.attach_database(name, size)
                if db:
                    nh += 1; H[nh] = db; D[db] = Db(L, db); ORIG[nh] = list((C.c_uint32 * 3).from_address(L.vh_seg_base(db)))
                    r = nh, L.database_size(db), L.memmode(db) & 0o777, L.memowner(db), L.memgroup(db), shmid(L.vh_seg_base(db))
            elif c == "arm": L.dll.vh_gate_arm(C.c_void_p(C.addressof(C.c_int64.from_buffer(shm, 64 + 8 * n))), C.c_int64(a[0])); r = 0
            elif c == "count": r = L.dll.vh_gate_count()
            elif c == "detach": db = H.pop(a[0]); D.pop(db); r = L.detach_database(db)
            elif c == "delete": r = L.delete_database(a[0])
            elif c == "poke":
                what, k = a; m = (C.c_uint32 * 3).from_address(L.vh_seg_base(H[k]))
                m[:] = ORIG[k]
                if what == "version": m[1] += 0x100
                elif what == "feature": m[2] ^= 1 << 3
                elif what == "order": m[0] = int.from_bytes(m[0].to_bytes(4, "little"), "big")
                elif what == "mark": m[0] ^= 0x10
                elif what == "unfinished": m[0] = INIT
                r = 0
            elif c == "logging": r = (L.start_logging if a[1] else L.stop_logging)(H[a[0]])
            elif c == "op": r = op(H[a[0]], *a[1:])
            elif c == "race":
                name, size = a
                while not struct.unpack_from("q", shm, 8)[0]: pass
                db = L.attach_database(name, size)
                if db:
                    nh += 1; H[nh] = db; D[db] = Db(L, db); ok = 0
                    lk = L.start_write(db)
                    if lk:
                        p = L.create_record(db, 40)
                        e = L.encode_str(db, b"race %d " % n * 20, b"en")
                        if p and e != ILLEGAL and L.set_field(db, p, 39, e) == 0:
                            ok = int(D[db].decode(L.get_field(db, p, 39)) == ("s", b"race %d " % n * 20, b"en") and L.delete_record(db, p) == 0)
                        L.end_write(db, lk)
                    r = nh, ok
            elif c == "conc":
                h, seed, k = a; R = random.Random(seed); r = []
                for _ in range(k):
                    x = op(H[R.choice(h)], R.choice(["add", "add", "set", "set", "set", "see", "see", "del"]), R.randrange(1000), R.randrange(1 << 20))
                    if x: r.append(x)
            if os.umask(0o27) != 0o27: raise ValueError("the file mode mask of the process has changed")
            conn.send(("ok", r))
        except Exception as e: conn.send(("bad", "%s: %s" % (type(e).__name__, e)))
ORIG = {}

class Share:
    def __init__(self, lib, out):
        self.L, self.out = lib, out
        self.f = open(os.path.join(out, "trace.ndjson"), "w"); self.nev, self.ops = 0, {}
        self.shm = mmap.mmap(-1, 4096); self.P = []; self.skipped = 0
        self.ids = {}
        self.may = self.can_change_user()
    def can_change_user(self):
        pid = os.fork()
        if pid == 0:
            try: os.setgroups([]); os.setgid(65534); os.setuid(65534); os._exit(0)
            except OSError: os._exit(1)
        return os.waitpid(pid, 0)[1] == 0
    def ev(self, op, **kw):
        kw["op"] = op; self.f.write(json.dumps(kw, separators=(",", ":")) + "\n"); self.nev += 1; self.ops[op] = self.ops.get(op, 0) + 1
    def spawn(self, k):
        a, b = multiprocessing.Pipe(); u = self.users[k]
        pid = os.fork()
        if pid == 0:
            try:
                a.close(); sys.stderr.close() if 0 else None
                child(self.L, b, u[0], u[1], self.shm, k)
            except EOFError: os._exit(0)
            except BaseException as e: os._exit(1)
        b.close(); self.P[k:k + 1] = [dict(pid=pid, c=a, h={})]
    def ask(self, k, *cmd):
        p = self.P[k]; p["c"].send(cmd); return self.answer(k)
    def answer(self, k):
        p = self.P[k]
        try: r = p["c"].recv()
        except EOFError:
            st = os.waitpid(p["pid"], 0)[1]
            raise ValueError("a process ended with status %d" % st)
        if r[0] == "bad": raise ValueError(r[1])
        return r[1]
    def segs(self, track=True):
        t = table(); out = []
        for i, x in sorted(t.items()):
            if x[0] & ~15 == BASE or x[0] == 1000 and self.names or i in self.ids:
                out.append([self.ids.setdefault(i, len(self.ids) + 1), x[0], x[1], x[2], x[3], x[4]])
        return out
    def byid(self, key):
        for i, x in table().items():
            if x[0] == key: return self.ids.setdefault(i, len(self.ids) + 1)
        return 0
    def reset(self, users, names=False):
        self.stop(); self.names = names; self.ids = {}; self.pend = {}; self.users = users; self.P = [None] * len(users); self.H = {}; self.nh = 0; self.hdr = {}
        self.log = {}
        struct.pack_into("qq", self.shm, 0, 0, 0)
        for k in range(len(users)): self.spawn(k)
        self.ev("reset", procs=[list(u) + (caps() if u[0] == 0 else [0, 0]) for u in users], segs=self.segs())
    def stop(self):
        for p in self.P:
            if p:
                try: os.kill(p["pid"], signal.SIGKILL); os.waitpid(p["pid"], 0)
                except OSError: pass
                p["c"].close()
        self.P = []
        sweep(True)
        if getattr(self, "names", False):
            for i, x in table().items():
                if x[0] == 1000: remove(i)
    def close(self):
        self.stop()
        open(os.path.join(self.out, "vals.json"), "w").write("{}")
        json.dump(dict(events=self.nev, ops=self.ops, values=0), open(os.path.join(self.out, "meta.json"), "w")); self.f.close()
    # ---- operations: processes are numbered from 0 here, from 1 in the trace
    def start(self, p, kind, name, size, perm, n):
        """an attach that is stopped at its n-th place -> whether it was"""
        struct.pack_into("q", self.shm, 64 + 8 * p, 0); self.ask(p, "arm", n); c = self.P[p]["c"]
        before = set(self.ids.values())
        c.send(("attach", kind, name, size, perm, None)); end = time.time() + 60
        while not struct.unpack_from("q", self.shm, 64 + 8 * p)[0] and not c.poll(0) and time.time() < end: pass
        if not struct.unpack_from("q", self.shm, 64 + 8 * p)[0]: self.attach(p, kind, name, size, perm, started=-1); self.ask(p, "arm", -1); return False
        g = self.segs(); self.pend[p] = (kind, name, size, perm, next((x[0] for x in g if x[0] not in before), 0))
        self.ev("start", p=p + 1, kind=kind, name=list(name), size=size, perm=perm, hdr=self.L.vh_hdr_size(), segs=g)
        return True
    def finish(self, p):
        kind, name, size, perm, i = self.pend.pop(p); struct.pack_into("q", self.shm, 64 + 8 * p, 2)
        h = self.attach(p, kind, name, size, perm, started=i); self.ask(p, "arm", -1); return h
    def attach(self, p, kind, name, size=0, perm=0, mn=None, started=None):
        key = self.key(name)
        r = self.ask(p, "attach", kind, name, size, perm, mn) if started is None else self.answer(p)
        h = 0; kw = dict(id=0, dbsize=0, mode=0, uid=0, gid=0)
        if r:
            self.nh += 1; h = self.nh; i = started if started and started > 0 else self.byid(key)
            if started == 0 and r[5] in self.ids: i = self.ids[r[5]]
            self.H[h] = (p, r[0], i); kw = dict(id=i, dbsize=r[1], mode=r[2], uid=r[3], gid=r[4])
        huge = int(mn is not None)
        kw["jm"] = self.jmode(key) if h and kind == "logged" else 0
        self.ev("attach", p=p + 1, kind=kind, name=list(name or b""), size=mn if huge else size, perm=perm, huge=huge, hdr=self.L.vh_hdr_size(), h=h, segs=self.segs(), **kw)
        return h
    def jmode(self, key):
        """the permissions of the journal"""
        try: return os.stat("wgdb.journal.%d" % key).st_mode & 0o777
        except FileNotFoundError: return -1
    def key(self, name):
        """only to look the segment up"""
        t = (name or b"").strip(b" \t\n\v\f\r"); m = __import__("re").match(rb"[+-]?\d+", t); n = int(m.group()) if m else 0
        return n if 0 < n < 2147483647 else 1000
    def detach(self, h):
        p, k, i = self.H.pop(h); r = self.ask(p, "detach", k); self.ev("detach", h=h, r=r, segs=self.segs())
    def delete(self, p, name): r = self.ask(p, "delete", name); self.ev("delete", p=p + 1, name=list(name or b""), r=r, segs=self.segs())
    def exit(self, p):
        q = self.P[p]
        os.kill(q["pid"], signal.SIGKILL); os.waitpid(q["pid"], 0); q["c"].close()
        for h in [h for h in self.H if self.H[h][0] == p]: self.H.pop(h)
        self.pend.pop(p, None)
        self.ev("exit", p=p + 1, segs=self.segs())
        self.spawn(p)
    def poke(self, h, what):
        p, k, i = self.H[h]; self.ask(p, "poke", what, k); self.hdr[i] = what
        self.ev("poke", h=h, what=what, segs=self.segs())
    def logging(self, h, on):
        p, k, i = self.H[h]; r = self.ask(p, "logging", k, on); g = self.segs(); self.ev("logging", h=h, on=on, r=r, segs=g, jm=self.jmode(next((x[1] for x in g if x[0] == i), 0)) if on and r == 0 else 0)
    def op(self, h, kind, k, v):
        p, x, i = self.H[h]; r = self.ask(p, "op", x, kind, k, v)
        if not r: raise ValueError("no lock")
        e = dict(r[1]); self.ev(e.pop("op"), h=h, **e)
    def race(self, name, size):
        struct.pack_into("q", self.shm, 8, 0); n = len(self.P); had = self.byid(self.key(name))
        for p in range(n): self.P[p]["c"].send(("race", name, size))
        time.sleep(.003); struct.pack_into("q", self.shm, 8, 1)
        who = []
        R = [self.answer(p) for p in range(n)]; i = self.byid(self.key(name))
        for p, r in enumerate(R):
            if r: self.nh += 1; self.H[self.nh] = (p, r[0], i); who.append([p + 1, self.nh, i, r[1]])
            else: who.append([p + 1, 0, 0, 0])
        self.ev("race", name=list(name), size=size, who=who, segs=self.segs())
    def conc(self, i, R, k):
        """all processes that are attached to one database work on it at the same time"""
        ps = sorted({self.H[h][0] for h in self.H if self.H[h][2] == i}); hs = {}
        for p in ps:
            hs[p] = {self.H[h][1]: h for h in self.H if self.H[h][0] == p and self.H[h][2] == i}
            self.P[p]["c"].send(("conc", sorted(hs[p]), R.randrange(1 << 30), k))
        E = []
        for p in ps: E += [(t, min(hs[p].values()), e) for t, e in self.answer(p)]
        if len(E) < len(ps) * k // 2: raise ValueError("locks time out: %d of %d" % (len(E), len(ps) * k))
        E.sort(key=lambda x: x[0])
        for t, h, e in E: e = dict(e); self.ev(e.pop("op"), h=h, **e)

ROOT = [(0, 0)] * 4
def users(R, s):
    if not s.may or R.random() < .3: return [(0, 0)] * R.choice([2, 3, 4])
    return [(0, 0)] + [R.choice([(0, 0), (65534, 65534), (65534, 65534), (65533, 0), (65533, 65533)]) for _ in range(R.choice([2, 3]))]
def p_hist(R, s, names=False):
    U = users(R, s); s.reset(U, names)
    # databases a process may delete and root may always use: what root may do to those of others is the system's affair
    N = [b"%d" % (BASE + k) for k in range(3)]
    own = {}
    def spell(k): return R.choice([N[k], N[k], N[k], b" " + N[k], b"+" + N[k], b"0" + N[k], N[k] + b"abc", b"\t\n" + N[k] + b" 1"])
    DEF = [None, b"", b"abc", b"-5", b"0", b"2147483647", b"1000", b"x12", b" -", b"+", b"--7"]
    root = [k for k in range(len(U)) if U[k] == (0, 0)]
    for _ in range(R.choice([20, 50, 90])):
        x = R.random(); p = R.randrange(len(U)); k = R.randrange(3)
        nm = R.choice(DEF) if names and R.random() < .7 else spell(k)
        ok = [h for h in s.H if s.hdr.get(s.H[h][2], "ok") == "ok"]
        key = s.key(nm)
        exists = s.byid(key)
        own_uid = next((t[4] for t in table().values() if t[0] == key), None)
        if x < .35 and len(s.H) < 14:
            if U[p][0] == 0 and own_uid: p = next((q for q in range(len(U)) if U[q][0] == own_uid), p)
            if U[p][0] == 0 and own_uid: continue
            kind = R.choice(["any", "any", "exist", "any" if s.nolog else "logged"])
            if U[p][0] and kind == "logged" and not exists: kind = "any"          # no place for the journal
            size = R.choice([0, 0, 300000, 1000000, 1000001, 3000000, R.randint(1, 400000), R.randint(16, 2000)])
            if kind == "exist": size = 0
            if kind == "any" and not exists and size >= 1000000 and R.random() < .15 and U[p][0] == 0: s.attach(p, kind, nm, 1 << 46, 0, size)
            else: s.attach(p, kind, nm, size, R.choice([0, 0, 0o600, 0o660, 0o666, 0o606, 0o644, 0o640, 0o602, 0o620, 0o6, 0o777]) if kind != "exist" else 0)
        elif x < .45 and s.H: s.detach(R.choice(sorted(s.H)))
        elif x < .52:
            if U[p][0] == 0 and own_uid: p = next((q for q in range(len(U)) if U[q][0] == own_uid), None)
            if p is not None: s.delete(p, nm)
        elif x < .57: s.exit(p)
        elif x < .64 and s.H:
            h = R.choice(sorted(s.H))
            if U[s.H[h][0]][0] == 0: s.poke(h, R.choice(["ok", "version", "feature", "order", "mark", "unfinished"]))
            for h in sorted(s.H):
                if s.hdr.get(s.H[h][2], "ok") != "ok" and U[s.H[h][0]][0] == 0 and R.random() < .5: s.poke(h, "ok")
        elif x < .72 and ok:
            if s.nolog: continue
            h = R.choice(ok); g = next((x for x in s.segs() if x[0] == s.H[h][2]), None)
            if g and g[1] and U[s.H[h][0]][0] == 0 and s.byid_size(s.H[h][2]) >= 1000000: s.logging(h, R.randrange(2))
        elif ok:
            big = [h for h in ok if s.byid_size(s.H[h][2]) >= 1000000]
            if big: s.op(R.choice(big), R.choice(["add", "add", "set", "set", "see", "see", "del"]), R.randrange(1000), R.randrange(1 << 20))
def p_names(R, s): p_hist(R, s, True)
def p_conc(R, s):
    s.reset([(0, 0)] * R.choice([2, 3, 4, 6])); n = len(s.P); nm = b"%d" % BASE
    for round in range(R.choice([1, 2, 4])):
        for p in range(n):
            for _ in range(R.choice([0, 1, 1, 2])): s.attach(p, "any", nm, R.choice([0, 2000000]) if s.byid(BASE) else 2000000)
        i = s.byid(BASE)
        if i and any(v[2] == i for v in s.H.values()): s.conc(i, R, R.choice([5, 20, 40]))
        for h in sorted(s.H):
            if R.random() < .2: s.detach(h)
        if R.random() < .6: s.exit(R.randrange(n))
        for h in sorted(s.H)[:3]: s.op(h, "see", 0, 0)
        if R.random() < .15: s.delete(0, nm)
def p_race(R, s):
    s.reset([(0, 0)] * R.choice([2, 3, 5, 8])); nm = b"%d" % BASE
    for _ in range(R.choice([2, 4])):
        sz = R.choice([1000000, 3000000, 20000000, 200000000])
        s.race(nm, sz)
        if R.random() < .4: s.race(nm, sz)
        for h in sorted(s.H): s.detach(h)
        s.delete(0, nm)
def p_steps(R, s):
    """someone is stopped in the middle of an attach, and others go on"""
    s.reset([(0, 0)] * 4); N = [b"%d" % (BASE + k) for k in range(2)]
    if not hasattr(s, "places"):                        # how many places there are in creating, and in linking
        s.places = {}
        for kind in ("any", "logged"):
            for what in ("make", "link"):
                s.ask(0, "arm", 1 << 40); s.attach(0, kind, N[0], 1000000); s.places[kind, what] = s.ask(0, "count"); s.ask(0, "arm", -1)
            for h in sorted(s.H): s.detach(h)
            s.delete(0, N[0])
        s.places["exist", "make"] = s.places["exist", "link"] = s.places["any", "link"]
        s.turn = R.random()
    def work(p):
        for h in [h for h in sorted(s.H) if s.H[h][0] == p]:
            for _ in range(R.choice([1, 2, 3])): s.op(h, R.choice(["add", "add", "see", "set", "del"]), R.randrange(10), R.randrange(1 << 20))
    for _ in range(6):
        nm = R.choice([N[0], N[0], N[1]]); made = s.byid(s.key(nm)) != 0
        kind = R.choice(["any", "any", "any", "logged", "exist"]); size = R.choice([1000000, 1000000, 0, 3000000, 300000]); perm = R.choice([0, 0o660])
        if kind == "exist": size = perm = 0
        s.turn = (s.turn + .6180339887) % 1
        t = s.places[kind, "link" if made else "make"]; n = 1 + int(s.turn * t) if R.random() < .7 else max(1, t - R.randrange(20))
        on = s.start(0, kind, nm, size, perm, n)
        for _ in range(R.choice([1, 2, 3, 5])):
            x = R.random(); p = R.randrange(1, 4)
            if x < .6:
                kd = R.choice(["any", "exist", "any", "any"] + ["logged"] * (kind != "logged"))
                s.attach(p, kd, R.choice([nm, nm, nm, N[1]]), R.choice([0, 1000000, 0]) if kd != "exist" else 0); work(p)
            elif x < .7: s.delete(p, nm)
            elif x < .8: s.exit(p)
            elif x < .9 and [h for h in s.H if s.H[h][0] == p]: s.detach(R.choice([h for h in sorted(s.H) if s.H[h][0] == p]))
            else: work(p)
        if on:
            if R.random() < .25: s.exit(0)
            else: s.finish(0)
        for p in range(4): work(p)
        if R.random() < .6:
            for h in sorted(s.H):
                if R.random() < .8: s.detach(h)
            s.delete(1, nm)
def p_born(R, s):
    """a creator at work, and someone who waits for the moment when the database becomes valid"""
    s.reset([(0, 0)]); nm = b"%d" % (BASE + 1)
    for _ in range(3):
        size = R.choice([100000000, 400000000, 1000000000]); n = s.L.vh_hdr_size()
        s.P[0]["c"].send(("attach", "any", nm, size, 0, None))
        end = time.time() + 20; i = -1; snap = b""
        while time.time() < end:
            i = libc.shmget(BASE + 1, 0, 0)
            if i >= 0: break
        if i >= 0:
            a = libc.shmat(i, None, 0)
            if a and a != (1 << 64) - 1:
                m = C.c_uint32.from_address(a)
                while m.value != MARK and time.time() < end: pass
                snap = C.string_at(a, n)
        r = s.answer(0)
        s.nh += 1; h = s.nh; k = s.byid(BASE + 1); s.H[h] = (0, r[0], k)
        same = int(snap == C.string_at(a, n)); libc.shmdt(a)
        s.ev("attach", p=1, kind="any", name=list(nm), size=size, perm=0, huge=0, hdr=n, h=h, id=k, dbsize=r[1], mode=r[2], uid=r[3], gid=r[4], segs=s.segs())
        s.ev("born", same=same)
        s.op(h, "add", 0, 5); s.op(h, "see", 0, 0)
        s.detach(h); s.delete(0, nm)
Share.byid_size = lambda s, i: next((x[1] for j, x in table().items() if s.ids.get(j) == i), 0)

def main():
    libp, profile, seed, count, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), os.path.abspath(sys.argv[5])
    os.makedirs(out, exist_ok=True); os.chdir(out); sweep()
    if profile.startswith("sh-"):
        rec = MRec(Lib(libp), out); code = 3
        try:
            with observing(out):
                for k in range(count): sh(profile[3:])(random.Random("%s/%d/%d" % (profile, seed, k)), rec)
                rec.guard = True; rec.drop_db()
            rec.close(); code = 0
        except SystemExit as e: code = e.code
        finally:
            if os.getpid() != rec.top:
                if sys.exc_info()[0] not in (None, SystemExit): __import__("traceback").print_exc(); code = 1
                os.write(rec.wr, b"%d" % code); sys.stderr.flush(); os._exit(0)
            sweep(True)
        sys.exit(code)
    s = Share(Lib(libp), out); s.nolog = "nolog" in sys.argv[6:]
    try:
        with observing(out):
            for k in range(count):
                R = random.Random("%s-%d-%d" % (profile, seed, k))
                s.stop()
                if profile == "names" and any(x[0] == 1000 for x in table().values()): break      # someone else uses the default
                globals()["p_" + profile](R, s)
    finally: s.close()
if __name__ == "__main__": main()
