"""Histories of the allocators for AllocTrace.tla: random ones and those generated from AllocModel.tla."""
import ctypes as C, json, os, random, sys
from .api import *
from .store import observing
VAR, FIXED = (0, 1, 2), (3, 4, 5, 6, 7, 8, 9)
class Heap:
    def __init__(self, lib, out):
        self.L = lib; self.f = open(os.path.join(out, "trace.ndjson"), "w", buffering=1 << 16); self.nev = 0; self.ops = {}; self.db = None; self.out = out
    def ev(self, op, **kw):
        kw["op"] = op; self.f.write(json.dumps(kw, separators=(",", ":")) + "\n"); self.nev += 1; self.ops[op] = self.ops.get(op, 0) + 1
    def reset(self, size=400000, dbl=None):
        if self.db: self.L.delete_local_database(self.db)
        self.db = self.L.attach_local_database(size); self.base = self.L.vh_seg_base(self.db)
        self.u = {a: {} for a in range(10)}; self.order = {a: [] for a in range(10)}; self.pat = 0
        self.ev("reset")
        for a in VAR:
            used = [o[0] for w in self.walks(a) for o in w if o[2] == 0]
            if used: self.ev("base", a=a, r=used)
        for a in FIXED:
            free = set(self.free(a)); used = [s for s in self.slots(a) if s not in free]
            if used: self.ev("base", a=a, r=used)
    def subs(self, a):
        x = self.L.arr(self.L.vh_subareas, self.db, a); return [x[k:k + 4] for k in range(0, len(x), 4)]
    def walks(self, a):
        x = self.L.arr(self.L.vh_objects, self.db, a)
        if x is None: return [[[0, 0, 9, 9]]]
        o = [x[k:k + 4] for k in range(0, len(x), 4)]; r = []
        for s in self.subs(a):
            if s[1]: r.append([b for b in o if s[0] <= b[0] < s[0] + s[1]])
        return r
    def free(self, a):
        x = self.L.arr(self.L.vh_fixfree, self.db, a); return [0, 0] if x is None else x
    def slots(self, a):
        n = self.L.vh_objlength(self.db, a); return [s[0] + k * n for s in self.subs(a) for k in range(s[1] // n)]
    def room(self): return self.L.vh_seg_size(self.db) - self.L.vh_seg_free(self.db)
    def freesizes(self, a): return sorted({b[1] for w in self.walks(a) for b in w if b[2] in (1, 4)})
    def alloc(self, a, n):
        fs, ns, room = self.freesizes(a), len(self.subs(a)), self.room()
        off = self.L.vh_alloc(self.db, a, n)
        if len(self.subs(a)) > ns: self.ev("grow", a=a, n=min(n, 10**7), free=fs)
        self.ev("alloc", a=a, n=max(-1, min(n, 10**7)), off=off, free=fs if not off else [], room=room, nsubs=ns)
        if off:
            self.pat = (self.pat + 1) % 251 + 1
            if n > 1: C.memset(self.base + off + 8, self.pat, n * 8 - 8)
            self.u[a][off] = (n, self.pat); self.order[a].append(off)
        return off
    def release(self, a, off):
        n, p = self.u[a].pop(off); self.order[a].remove(off)
        same = n <= 1 or C.string_at(self.base + off + 8, n * 8 - 8) == bytes([p]) * (n * 8 - 8)
        self.ev("free", a=a, off=off, r=self.L.vh_release(self.db, a, off), same=int(same))
    def heap(self, a):
        b = self.L.arr(self.L.vh_buckets, self.db, a)
        if b is None: b = [-7, 0, 0, 0, -1, 0, 0, 1]
        q = [b[k:k + 4] for k in range(0, len(b), 4)]
        self.ev("heap", a=a, subs=[s[:2] for s in self.subs(a) if s[1]], walks=self.walks(a), buckets=q[:-1], dv=q[-1][1], dvsize=q[-1][2])
    def falloc(self, a):
        room, ns, nf = self.room(), len(self.subs(a)), len(self.free(a))
        off = self.L.vh_falloc(self.db, a); self.ev("falloc", a=a, off=off, room=room, nsubs=ns, nfree=nf)
        if off:
            n = self.L.vh_objlength(self.db, a); self.pat = (self.pat + 1) % 251 + 1
            C.memset(self.base + off, self.pat, n); self.u[a][off] = (n, self.pat); self.order[a].append(off)
        return off
    def frelease(self, a, off):
        self.u[a].pop(off); self.order[a].remove(off); self.L.vh_frelease(self.db, a, off); self.ev("ffree", a=a, off=off)
    def fix(self, a): self.ev("fix", a=a, subs=[s[:2] for s in self.subs(a)], len=self.L.vh_objlength(self.db, a), free=self.free(a))
    def seg(self):
        self.ev("seg", all=[s[2:4] for a in range(10) for s in self.subs(a) if s[3]], hdr=self.L.vh_hdr_size(), free=self.L.vh_seg_free(self.db), size=self.L.vh_seg_size(self.db))
    def close(self):
        json.dump(dict(events=self.nev, ops=self.ops), open(os.path.join(self.out, "meta.json"), "w"))
        json.dump({}, open(os.path.join(self.out, "vals.json"), "w")); self.f.close()

def size(R, st):
    if st == 0: return R.choice([0, 1, 3, 4, 5, 6, 7, 8, 9, 12])
    if st == 1: return R.choice([4, 5, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 60, 63, 64, 65, 68])
    if st == 2: return R.choice([4, 8, 40, 63, 64, 127, 128, 129, 250, 256, 300, 511, 512, 600])
    if st == 3: return R.choice([1, 4, 5, 400, 900, 1000, 1010, 1012, 1016, 1020, 2000, 4000, 5000])
    return R.randint(1, 80)
def p_random(R, h):
    h.reset(R.choice([300000, 400000, 1000000])); a = R.choice([0, 0, 1, 2]); st = R.randrange(5)
    # grow first: the area must be exhausted for splitting and searching to matter
    target = R.choice([5, 20, 60, 150]); n = R.choice([60, 150, 300])
    for _ in range(n):
        if R.random() < .02: st = R.randrange(5)
        live = h.order[a]
        if len(live) < target and R.random() < .65 or not live: h.alloc(a, size(R, st))
        else:
            k = R.random()
            h.release(a, live[-1] if k < .3 else live[0] if k < .5 else R.choice(live))
        if R.random() < .15: h.heap(a)
    h.heap(a); h.seg()
    L = list(h.order[a])
    m = R.randrange(4)
    if m == 0: L.reverse()
    elif m == 1: R.shuffle(L)
    elif m == 2: L = L[::2] + L[1::2]
    for k, o in enumerate(L):
        h.release(a, o)
        if k % 9 == 0: h.heap(a)
    h.heap(a)
def p_small(R, h):
    """a nearly full segment: growth stops, refusals, everything must come out of freed blocks"""
    h.reset(R.choice([260000, 280000, 300000])); a = R.choice(VAR); st = R.choice([1, 2, 3, 4])
    big = 0
    while h.room() > R.choice([9000, 20000, 40000]) and big < 40:
        if not h.alloc(a, R.choice([900, 1010, 2000, 3000])): break
        big += 1
    for _ in range(R.choice([80, 200])):
        live = h.order[a]
        if R.random() < .55 or not live: h.alloc(a, size(R, st) if R.random() < .9 else R.choice([20000, 100000, 1 << 40, -1]))
        else: h.release(a, R.choice(live))
        if R.random() < .1: h.heap(a)
    h.heap(a); h.seg()
    for o in list(h.order[a]): h.release(a, o)
    h.heap(a)
def p_fixed(R, h):
    h.reset(R.choice([300000, 400000])); a = R.choice(FIXED)
    for _ in range(R.choice([20, 100, 300])):
        live = h.order[a]
        if R.random() < .7 or not live: h.falloc(a)
        else: h.frelease(a, R.choice(live) if R.random() < .6 else live[-1])
        if R.random() < .03: h.fix(a)
    h.fix(a); h.seg()
    if R.random() < .3:
        k = 0
        while h.falloc(a) and k < 700: k += 1
        h.fix(a); h.seg()
    for o in list(h.order[a]): h.frelease(a, o)
    h.fix(a)
def p_model(h, hist, units):
    """a history of AllocModel.tla: sizes are gints, the victim is first made `units' long"""
    h.reset(260000); a = 2 if hist and len(hist) % 2 else 0
    dv = h.freesizes(a)[-1] // 8
    h.alloc(a, dv - units); base = list(h.order[a])
    h.heap(a)
    mine = []
    for x in hist:
        if x["op"] == "alloc": mine.append(h.alloc(a, x["n"]))
        else: h.release(a, mine.pop(x["n"] - 1))
    h.heap(a)
    for o in mine: h.release(a, o); h.heap(a)
PROFILES = dict(random=p_random, small=p_small, fixed=p_fixed)
def main(a):
    libp, prof, seed, count, out = a[0], a[1], int(a[2]), int(a[3]), a[4]
    os.makedirs(out, exist_ok=True); h = Heap(Lib(libp), out)
    with observing(out):
        if prof == "model":
            hs = json.load(open(a[5])); units = int(a[6]); step = int(a[7]); first = int(a[8])
            for x in hs[first::step]: p_model(h, x, units)
        else:
            for k in range(count): PROFILES[prof](random.Random("%s/%d/%d" % (prof, seed, k)), h)
    h.close()
if __name__ == "__main__": main(sys.argv[1:])
