"""Worker: histories with a journal over databases that run out of room (spec/OomJournalTrace.tla).
usage: python3 -m wgv.drv_ojournal LIB PROFILE SEED COUNT OUTDIR"""
import ctypes as C, os, random, resource, sys
from .store import *
from .drv_store import rh
from .drv_oom import ORec, AREAS, ops, mk, val
from .drv_journal import JRec, JSONS

class Rec(JRec):
    """a journal (JRec) over a database that is made full (ORec)"""
    for n in ("header", "head", "seal", "unseal", "hog", "give", "stock", "full", "room", "create", "set", "encfree", "mkidx", "make"): locals()[n] = ORec.__dict__[n]
    def reset(self, size=None):
        self.held, self.sealed, self.specials, self.parts = {}, None, 0, False
        JRec.reset(self, size); self.base_dump = False
        self.head0 = self.header()
    def json(self, R):
        """a document stays, in parts if it must"""
        L, p = self.L, C.c_void_p(0)
        par = R.random() < .3
        r = (L.parse_json_param if par else L.parse_json_document)(self.db, R.choice(JSONS), C.addressof(p))
        self.parts |= r != 0 or par; self.ev("json", r=r)
        self.adopt()
    def strs(self):
        if not self.parts: JRec.strs(self)           # parameters hold strings of their own, a document or an entry given up may leave some behind
def some(R, rec, n, nf, w, idx):
    """stretches of operations, documents now and then"""
    while n > 0:
        k = min(n, R.choice([3, 8, 20])); n -= k
        ops(R, rec, k, nf, w, idx, p=.02)
        if R.random() < .3 and not rec.idx and not idx: rec.json(R)     # what an index makes of documents is decided elsewhere
class Tight:
    """the library with a bound on the size of the files it writes, in effect during calls that change data"""
    OPS = ("create_record", "create_raw_record", "delete_record", "set_field", "set_new_field")
    def __init__(self, L): self._l, self._lim = L, None
    def __getattr__(self, n):
        f = getattr(self._l, n)
        if self._lim is None or not (n in self.OPS or n.startswith("encode_")): return f
        def g(*a):
            hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
            resource.setrlimit(resource.RLIMIT_FSIZE, (self._lim, hard))
            try: return f(*a)
            finally: resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
        return g
def p_nodisk(R, rec):
    """the disk of the journal is full now and then, at any byte of an entry"""
    rec.reset(1000000)
    nf = R.choice([1, 2, 3]); w = rec.id(('v', 0)); idx = R.random() < .3
    base = start(R, rec, nf, w, idx)
    rec.parts = True                                  # a string whose entry fails may stay, unused
    T = Tight(rec.L); rec.L = T; rec.D = Db(T, rec.db)
    try:
        ops(R, rec, R.choice([3, 10, 30]), nf, w, False, p=.02)
        for _ in range(R.choice([2, 5, 10])):
            T._lim = rec.jsize() + R.choice([0, 1, 2, 3, 5, 8, 12, 30, 60, 200]); rec.ev("full", a=["jrn"])
            for _ in range(R.choice([1, 3, 10])):
                h = rh(R, rec) if rec.live else 0; k = R.random()
                if not h or k < .3: rec.create(nf)
                elif k < .4: rec.delete(h)
                elif rec.lens[h]: rec.set(h, R.randrange(rec.lens[h]), val(R, rec))
            T._lim = None; rec.ev("room")
            if R.random() < .5: rec.snap(); rec.scan(); rec.recover(base, [rec.curid()])
            ops(R, rec, R.choice([1, 5, 15]), nf, w, False, p=.02)
        rec.snap(); rec.recover(base, [rec.curid()], perturb=R if R.random() < .5 else None)
    finally: rec.L = T._l; rec.D = Db(rec.L, rec.db)
def start(R, rec, nf, w, idx):
    """contents from before the journal, or none"""
    base = ""
    if R.random() < .5:
        for _ in range(R.choice([3, 15])):
            h = rec.create(nf)
            for c in range(nf): rec.set(h, c, val(R, rec))
        rec.dump("base"); base = "base"
    rec.start()
    if idx:
        for _ in range(R.choice([0, 1, 2])): mk(R, rec, nf, w)
    return base
def p_full(R, rec):
    """storage areas run full in turns"""
    rec.reset(R.choice([3000000, 6000000]))
    nf = R.choice([1, 2, 3, 5]); w = rec.id(('v', 0)); idx = R.random() < .6
    base = start(R, rec, nf, w, idx)
    some(R, rec, R.choice([0, 10, 30]), nf, w, idx)
    for _ in range(R.choice([1, 2, 3])):
        names = R.choice([[R.choice(sorted(AREAS))], R.sample(sorted(AREAS), 2), sorted(AREAS), ["cell"], ["rec"], ["long"], ["short", "word", "dword"]])
        rec.full(R, names)
        some(R, rec, R.choice([10, 25, 60]), nf, w, idx)
        rec.recover(base, [rec.curid()], size=8000000)
        if R.random() < .6: rec.room(R); some(R, rec, R.choice([0, 10]), nf, w, idx)
    rec.snap(); rec.recover(base, [rec.curid()], size=8000000, perturb=R if R.random() < .5 else None)
def p_fill(R, rec):
    """a small segment fills up by itself"""
    rec.reset(R.choice([220000, 262144, 300000]))
    nf = R.choice([1, 3, 6]); w = rec.id(('v', 0))
    rec.ev("full", a=sorted(AREAS) + ["seg"])
    base = start(R, rec, nf, w, R.random() < .3)
    bad = 0
    while bad < 4 and rec.nev < 1200:
        h = rec.create(R.choice([nf, nf, 40, 400, 2000]))
        if not h: bad += 1; continue
        for c in range(min(nf, rec.lens[h])):
            v = R.choice([lambda: rec.id(('s', b"%d" % R.randrange(1 << 30) + b"z" * R.choice([20, 100, 1000, 5000]), None)), lambda: rec.id(('i', (1 << 62) + R.getrandbits(40))), lambda: val(R, rec)])()
            if rec.set(h, c, v) != 0: bad += 1
    idx = R.random() < .3
    for _ in range(R.choice([1, 3])):
        some(R, rec, R.choice([10, 30]), nf, w, idx)
        rec.snap(); rec.recover(base, [rec.curid()], size=8000000)
PROFILES = {k[2:]: v for k, v in list(globals().items()) if k.startswith("p_")}
def main(a):
    libp, prof, seed, count, out = a[0], a[1], int(a[2]), int(a[3]), os.path.abspath(a[4])
    os.makedirs(out, exist_ok=True)
    rec = Rec(Lib(libp), out)
    with observing(out):
        for k in range(count): PROFILES[prof](random.Random("oj/%s/%d/%d" % (prof, seed, k)), rec)
    rec.close()
if __name__ == "__main__": main(sys.argv[1:])
