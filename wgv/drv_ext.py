"""Histories over several databases that refer to each other's records and values (ExtTrace.tla).
python3 -m wgv.drv_ext LIB PROFILE SEED COUNT OUT"""
import os, random, sys, ctypes as C
from .api import *
from .store import *

TYPES = "nniIIddsSSSxubfcDTv"
class Ext(Recorder):
    def reset(self, sizes):
        L = self.L
        for d in list(getattr(self, "dbs", {}).values()): L.delete_local_database(d.db)
        self.dbs = {}; self.live, self.live_ptr, self.home, self.n = {}, {}, {}, {}; self.next_h = 1
        for k, s in enumerate(sizes):
            db = L.attach_local_database(s)
            if not db: raise RuntimeError("cannot create database")
            self.dbs[k + 1] = Db(L, db)
        self.span = {k: (L.vh_seg_base(d.db), L.vh_seg_size(d.db)) for k, d in self.dbs.items()}
        self.low = min(b for b, s in self.span.values())
        self.pins = set(); self.cols = {k: [] for k in self.dbs}; self.reg = {k: set() for k in self.dbs}; self.nr = {k: 0 for k in self.dbs}
        self.ev("reset", n=len(sizes)); self.flush()
        self.base0 = {}
        for k in self.dbs: self.base0[k] = self.used(k)
    # ---- encoding
    def whose(self, k, e):
        """the database that holds what e (a value of database k) points to"""
        if e & 7 in (3, 7) or e == 0: return 0
        a = self.span[k][0] + (e & ~7)
        if e & 3 == 1: a = self.span[k][0] + (e & ~3)
        return next((j for j, (b, s) in self.span.items() if b < a < b + s), 99)
    def dec(self, k, e):
        t = self.dbs[k].decode(e)
        if t[0] == "r": return -self.live_ptr.get(t[1], 888888888), 0
        return self.id(t), self.whose(k, e)
    def ofs(self, p): return (p - self.low) // 8
    def encode(self, k, v):
        t = self.tok(v)
        if t[0] == "r":
            w = self.home[-v]; e = self.L.encode_record(self.dbs[w].db, t[1])
            return (e if w == k else self.L.encode_external_data(self.dbs[k].db, self.dbs[w].db, e)), 0
        e = self.dbs[k].encode(t); return e, self.whose(k, e)
    def free(self, k, v, e):
        if v > 0: self.L.free_encoded(self.dbs[k].db, e)
    # ---- operations
    def create(self, k, n):
        p = self.L.create_record(self.dbs[k].db, n); h = self.next_h; self.next_h += 1
        if not p: raise ValueError("no record")
        self.live[h] = p; self.live_ptr[p] = h; self.home[h] = k; self.n[h] = n
        self.ev("create", d=k, h=h, n=n, a=self.ofs(p)); return h
    def put(self, h, c, v, w, e, new, own):
        k = self.home[h]; L = self.L
        r = (L.set_new_field if new else L.set_field)(self.dbs[k].db, self.live[h], c, e)
        if r and own: self.free(k, v, e)
        self.ev("set", h=h, c=c, v=v, w=w, new=int(new), r=r); return r
    def set(self, h, c, v, new=False):
        e, w = self.encode(self.home[h], v)
        r = self.put(h, c, v, w, e, new, True)
        if r == 0 and v < 0 and self.home[-v] != self.home[h]: self.pins.add(-v)
        return r
    def setx(self, h, c, g, gc, new=False):
        """the value in a field of a record of another database"""
        k, j = self.home[h], self.home[g]; L = self.L
        e = L.get_field(self.dbs[j].db, self.live[g], gc); v, w = self.dec(j, e)
        if w == k and e & 7 != 4: return None             # the cell of another field of this database
        x = L.encode_external_data(self.dbs[k].db, self.dbs[j].db, e)
        r = self.put(h, c, v, w, x, new, False)
        if r == 0: self.pins.add((g, gc)); self.pins.add(g); (v < 0) and self.pins.add(-v)
        return r
    def aset(self, h, c, g, gc):
        k, j = self.home[h], self.home[g]; L = self.L
        e = L.get_field(self.dbs[j].db, self.live[g], gc); v, w = self.dec(j, e)
        x = L.encode_external_data(self.dbs[k].db, self.dbs[j].db, e)
        self.ev("aset", h=h, c=c, v=v, w=w, r=L.set_atomic_field(self.dbs[k].db, self.live[h], c, x))
    def get(self, h, c): v, w = self.dec(self.home[h], self.L.get_field(self.dbs[self.home[h]].db, self.live[h], c)); self.ev("get", h=h, c=c, v=v, w=w)
    def delete(self, k, h):
        r = self.L.delete_record(self.dbs[k].db, self.live[h])
        if r == 0: self.live_ptr.pop(self.live.pop(h)); self.home.pop(h); self.n.pop(h)
        self.ev("del", d=k, h=h, r=r)
    def register(self, k, j):
        r = self.L.register_external_db(self.dbs[k].db, self.dbs[j].db); self.ev("reg", d=k, e=j, r=r)
        self.nr[k] += 1
        if r == 0: self.reg[k].add(j)
    def index(self, k, c, typ):
        r = self.L.create_index(self.dbs[k].db, c, typ, None, 0)
        if r == 0: self.cols[k].append((c, typ))
        self.ev("mkidx", d=k, c=c, type=typ, r=r)
    def drop(self, k):
        c, typ = self.cols[k].pop(); db = self.dbs[k].db
        self.ev("drop", d=k, c=c, type=typ, r=self.L.drop_index(db, self.L.column_to_index_id(db, c, typ, None, 0)))
    def owner(self, k, h):
        a = self.L.get_rec_owner(self.dbs[k].db, self.live[h])
        self.ev("owner", d=k, h=h, r=0 if not a else next((j for j, (b, s) in self.span.items() if b == a), 99))
    def trans(self, k, g, gc):
        j = self.home[g]; L = self.L; e = L.get_field(self.dbs[j].db, self.live[g], gc); v, w = self.dec(j, e)
        x = L.encode_external_data(self.dbs[k].db, self.dbs[j].db, e); y, z = self.dec(k, x)
        b1, b2 = C.create_string_buffer(20000), C.create_string_buffer(20000)
        same = int(z == w)
        if v > 0:
            L.snprint_value(self.dbs[j].db, e, b1, 20000); L.snprint_value(self.dbs[k].db, x, b2, 20000); same &= int(b1.value == b2.value)
            if w != k: L.free_encoded(self.dbs[k].db, x)
        self.ev("trans", d=k, e=j, v=v, x=y, same=same)
    def cond_value(self, k, R):
        """a value to compare with: own, or one of another database -> (v, e, to be freed)"""
        h = R.choice(sorted(self.live)); j = self.home[h]
        if self.n[h] and (j == k or j in self.reg[k]) and R.random() < .7:
            e = self.L.get_field(self.dbs[j].db, self.live[h], R.randrange(self.n[h])); v, w = self.dec(j, e)
            if v >= 0 or self.home[-v] == k or self.home[-v] in self.reg[k]:
                return v, self.L.encode_external_data(self.dbs[k].db, self.dbs[j].db, e), False
        if R.random() < .3:
            g = R.choice([x for x in sorted(self.live) if self.home[x] == k or self.home[x] in self.reg[k]] or [0])
            if g: return -g, self.encode(k, -g)[0], False
        v = self.val(R); e, w = self.encode(k, v); return v, e, w == k
    def val(self, R): return self.id(rvalue(R, TYPES))
    def query(self, k, R):
        L, db = self.L, self.dbs[k].db; cs = []; al = (QArg * 3)()
        for i in range(R.choice([1, 1, 2])):
            v, e, f = self.cond_value(k, R); c = R.randrange(4); op = R.choice([1, 1, 2, 4, 8, 16, 32]); cs.append((c, op, v, e, f))
            al[i].column, al[i].cond, al[i].value = c, op, e
        q = L.make_query(db, None, 0, C.cast(al, P), len(cs)); out = []
        while q and len(out) < len(self.live) + 10:
            p = L.fetch(db, q)
            if not p: break
            out.append(self.live_ptr.get(p, 999999))
        if q: L.free_query(db, q)
        for c, op, v, e, f in cs:
            if f: self.free(k, v, e)
        self.ev("query", d=k, conds=[x[:3] for x in cs], r=out if q else [999998])
    def find(self, k, R, p=None):
        L, db = self.L, self.dbs[k].db; v, e, f = p or self.cond_value(k, R); c = 0 if p else R.randrange(4); op = R.choice([1, 1, 2, 4, 8, 16, 32]); out = []
        p = L.find_record(db, c, op, e, None)
        while p and len(out) < len(self.live) + 10: out.append(self.live_ptr.get(p, 999999)); p = L.find_record(db, c, op, e, p)
        if f: self.free(k, v, e)
        self.ev("find", d=k, c=c, cond=op, v=v, r=out)
    def near(self, k): return [h for h in sorted(self.live) if self.home[h] == k or self.home[h] in self.reg[k]]
    def twin(self, g, k):
        """a record in k with the same values as g in its own cells"""
        h = self.create(k, self.n[g])
        for c in range(self.n[g]):
            v, w = self.dec(self.home[g], self.L.get_field(self.dbs[self.home[g]].db, self.live[g], c))
            if v: self.set(h, c, v)
    def pair(self, k, R):
        """two records compared, of the same length where possible"""
        hs = self.near(k)
        if len(hs) < 2: return
        a = R.choice(hs); b = R.choice([h for h in hs if self.n[h] == self.n[a]])
        if R.random() < .6: self.cmp(k, R, (-a, self.encode(k, -a)[0], False), (-b, self.encode(k, -b)[0], False))
        else:
            mine = [h for h in hs if self.home[h] == k and self.n[h] and (h, 0) not in self.pins]
            if mine: self.set(R.choice(mine), 0, -a); self.find(k, R, (-b, self.encode(k, -b)[0], False))
    def cmp(self, k, R, p=None, q=None):
        a, x, f = p or self.cond_value(k, R); b, y, g = q or self.cond_value(k, R); r = self.L.vh_compare(self.dbs[k].db, x, y)
        if f: self.free(k, a, x)
        if g and not (f and x == y): self.free(k, b, y)
        self.ev("cmp", d=k, a=a, b=b, r=(r > 0) - (r < 0))
    def scan(self, k):
        out, p, lim = [], self.L.get_first_record(self.dbs[k].db), len(self.live) + 20
        while p and len(out) < lim: out.append(self.live_ptr.get(p, 999999)); p = self.L.get_next_record(self.dbs[k].db, p)
        self.ev("scan", d=k, r=out)
    def parents(self, h):
        db = self.dbs[self.home[h]].db; out, p, lim = [], self.L.get_first_parent(db, self.live[h]), len(self.live) + 20
        while p and len(out) < lim: out.append(self.live_ptr.get(p, 999999)); p = self.L.get_next_parent(db, self.live[h], p)
        self.ev("par", h=h, r=out)
    def snap(self):
        hs = sorted(self.live); fs, ws = [], []
        for h in hs:
            db = self.dbs[self.home[h]].db
            f = [self.dec(self.home[h], self.L.get_field(db, self.live[h], c)) for c in range(self.L.get_record_len(db, self.live[h]))]
            fs.append([x[0] for x in f]); ws.append([x[1] for x in f])
        self.ev("snap", hs=hs, fs=fs, ws=ws)
    def used(self, k):
        self.db = self.dbs[k].db; return [self.fixused(a) for a in (3, 4, 5, 6)], [len(self.varused(a)) for a in (1, 2)]
    def hold(self, k):
        f, v = self.used(k); b = self.base0[k]; db = self.db
        data = [o for o in self.varused(0) if o > 0 and not self.L.vh_meta(db, self.L.vh_ptr(db, o)) & 1]
        f = [x - y for x, y in zip(f, b[0])]
        self.ev("acct", d=k, recs=[self.ofs(self.span[k][0] + o) for o in data], cells=f[0], shorts=f[1], words=f[2], dwords=f[3], longs=v[0] - b[1][0])
        a = self.L.arr(self.L.vh_strhash, db)
        self.ev("strs", d=k, r=[[999999, 0]] if a is None else [[self.dec(k, a[i])[0], a[i + 1]] for i in range(0, len(a), 2)])
    def dump(self, k):
        r = self.L.dump(self.dbs[k].db, b"ext.dump")
        if os.path.exists("ext.dump"): os.remove("ext.dump")
        self.ev("dump", d=k, r=r)
    def check(self):
        self.snap()
        for k in self.dbs: self.scan(k); self.hold(k)

def history(R, s):
    n = R.choice([2, 2, 3, 4]); s.reset([R.choice([1000000, 2000000, 3000000]) for _ in range(n)])
    ks = list(s.dbs)
    for k in ks:
        for j in ks:
            if j != k and R.random() < .35: s.register(k, j)
    for _ in range(R.choice([20, 60, 120])):
        x = R.random(); k = R.choice(ks); hs = sorted(s.live); mine = [h for h in hs if s.home[h] == k]
        if x < .12 or len(hs) < 4: s.create(k, R.choice([0, 1, 2, 3, 3, 4]))
        elif x < .58 and mine:
            h = R.choice(mine); c = R.randrange(max(1, s.n[h] + (R.random() < .04))) if s.n[h] or R.random() < .1 else None
            if c is None or (h, c) in s.pins: continue
            if c >= s.n[h]: new = False
            else: new = R.random() < .2
            y = R.random(); g = R.choice(hs); far = s.home[g] != k
            if y < .35: s.set(h, c, s.val(R), new)
            elif y < .55:
                g = R.choice([q for q in hs if s.home[q] != k] or hs)
                s.set(h, c, -g, new)
            elif y < .65: s.set(h, c, -R.choice(mine), new)
            elif far and s.n[g]:
                gc = R.randrange(s.n[g])
                # what the field of the other database refers to must be registered here as well, or is refused
                s.setx(h, c, g, gc, new) if y < .93 else s.aset(h, c, g, gc)
        elif x < .62: s.twin(R.choice(hs), k)
        elif x < .66 and R.random() < .5: s.pair(k, R)
        elif x < .66:
            h = R.choice(hs)
            if h not in s.pins: s.delete(k if R.random() < .5 else s.home[h], h)
            elif s.home[h] != k: s.delete(k, h)              # refused: it belongs to another one
        elif x < .69: s.register(k, R.choice([j for j in ks if j != k]))
        elif x < .70:
            j = R.choice([j for j in ks if j != k])
            for _ in range(22): s.register(k, j)
        elif x < .72: s.index(k, R.randrange(3), R.choice([TTREE, HASH]))
        elif x < .73:
            if any(t == TTREE for c, t in s.cols[k][-1:]): s.drop(k)
        elif x < .77: s.owner(k, R.choice(hs))
        elif x < .82:
            g = R.choice(hs)
            if s.n[g] and s.home[g] in s.reg[k]: s.trans(k, g, R.randrange(s.n[g]))
        elif x < .87: s.cmp(k, R)
        elif x < .92: s.query(k, R)
        elif x < .95: s.find(k, R)
        elif x < .97: s.parents(R.choice(hs))
        elif x < .98: s.dump(k)
        elif s.n[hs[0]]: s.get(hs[0], 0)
        if R.random() < .08: s.check()
    s.check()

def main():
    libp, profile, seed, count, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), os.path.abspath(sys.argv[5])
    os.makedirs(out, exist_ok=True); os.chdir(out)
    s = Ext(Lib(libp), out)
    with observing(out):
        for k in range(count): history(random.Random("%s-%d-%d" % (profile, seed, k)), s)
    s.close()
if __name__ == "__main__": main()
