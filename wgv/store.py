"""Drives one real database with generated histories and records them as a trace for StoreTrace.tla."""
import contextlib, functools, json, os, random, ctypes as C, struct, sys, traceback
from .api import *

NOVAL = -999999999
MAXI, MINI = (1 << 63) - 1, -(1 << 63)

class Recorder:
    def __init__(self, lib, out, size=8000000):
        self.L = lib
        self.out = out
        self.f = open(os.path.join(out, "trace.ndjson"), "w", buffering=1 << 16)
        self.vals, self.vid, self.nev = [], {}, 0
        self.db = None; self.size = size
        self.next_h = 1; self.ops = {}
    # ---- events and value table
    def ev(self, op, **kw):
        kw["op"] = op
        self.f.write(json.dumps(kw, separators=(",", ":")) + "\n")
        self.nev += 1; self.ops[op] = self.ops.get(op, 0) + 1
    def id(self, tok):
        if tok[0] == 'n': return 0
        if tok[0] == 'r': return -self.live_ptr.get(tok[1], 888888888)
        i = self.vid.get(tok)
        if i is None:
            self.vals.append(tok); i = self.vid[tok] = len(self.vals)
        return i
    def tok(self, i):
        if i == 0: return ('n',)
        if i < 0: return ('r', self.live[-i])
        return self.vals[i - 1]
    def close(self):
        self.flush()
        V = self.vals or [('i', 0)]
        extra = []                                   # the value that carries the second part of a string value
        for v in list(V): extra.append(self.id(('s', v[2], None)) if v[0] in 'sxub' and v[2] is not None else 0)
        extra += [0] * (len(V) - len(extra))
        keys = [key(v) if v[0] != '?' else [v[1]] for v in V]
        order = sorted(range(len(V)), key=lambda i: keys[i])
        rank = [0] * len(V); r = 0
        for n, i in enumerate(order):
            if n and keys[i] != keys[order[n - 1]]: r += 1
            rank[i] = r
        imm = [i + 1 for i, v in enumerate(V) if v[0] in "fcDTv" or (v[0] == 'i' and -(1 << 60) <= v[1] < (1 << 60))]
        json.dump(dict(keys=keys, type=[k[0] for k in keys], rank=rank, order=[i + 1 for i in order],
                       cls=[("word" if not -(1 << 60) <= v[1] < (1 << 60) else "") if v[0] == 'i' else "dword" if v[0] == 'd' else
                            "short" if v[0] == 's' and v[2] is None and len(v[1]) < 32 else "" for v in V],
                       long=[int(v[0] in 'xub' or (v[0] == 's' and (v[2] is not None or len(v[1]) >= 32))) for v in V],
                       extra=extra, len=[len(v[1]) if v[0] in 'sxub' else 0 for v in V],
                       elen=[len(v[2] or b"") if v[0] in 'sxub' else 0 for v in V],
                       wild=[i + 1 for i, v in enumerate(V) if v[0] == 'v'], imm=imm, show=[show(v) for v in V]),
                  open(os.path.join(self.out, "vals.json"), "w"))
        json.dump(dict(events=self.nev, ops=self.ops, values=len(self.vals)), open(os.path.join(self.out, "meta.json"), "w"))
        self.f.close()
    def flush(self): self.f.flush()
    # ---- a new database
    def reset(self, size=None):
        if self.db: self.L.delete_local_database(self.db)
        self.db = self.L.attach_local_database(size or self.size)
        if not self.db: raise RuntimeError("cannot create database")
        self.D = Db(self.L, self.db)
        self.live, self.live_ptr, self.idx, self.lens = {}, {}, {}, {}
        self.idxh, self.next_i = {}, 1
        self.openq, self.next_q = {}, 0
        self.flush(); self.specials = 0
        self.ev("reset")
        self.base = [self.fixused(a) for a in (3, 4, 5, 6, 7, 8, 9)]
        self.bases = [self.varused(a) for a in (1, 2)]
    # ---- encoding
    def enc(self, v, **kw):
        """value id -> encoded gint"""
        t = self.tok(v)
        if t[0] == 'r': return self.D.encode(('r',), ptr=t[1], **kw)
        return self.D.encode(t, **kw)
    def dec(self, e):
        if e == ILLEGAL: return NOVAL
        t = self.D.decode(e)
        if t[0] == 'r': return -self.live_ptr.get(t[1], 888888888)
        return self.id(t)
    # ---- operations
    def create(self, n, raw=False):
        p = (self.L.create_raw_record if raw else self.L.create_record)(self.db, n)
        if not p: self.ev("create", h=0, n=n, a=0); return 0
        h = self.next_h; self.next_h += 1
        self.live[h] = p; self.live_ptr[p] = h; self.lens[h] = n
        self.ev("create", h=h, n=n, a=self.L.vh_offset(self.db, p))
        return h
    def set(self, h, c, v, new=False):
        e = self.enc(v)
        r = (self.L.set_new_field if new else self.L.set_field)(self.db, self.live[h], c, e)
        if r != 0 and v > 0: self.L.free_encoded(self.db, e)
        self.ev("setnew" if new else "set", h=h, c=c, v=v, r=r)
        return r
    def set_typed(self, h, c, v):
        t = self.tok(v); p = self.live[h]
        if t[0] == 'i': r = self.L.set_int_field(self.db, p, c, t[1])
        elif t[0] == 'd': r = self.L.set_double_field(self.db, p, c, bitsd(t[1]))
        elif t[0] == 's' and t[2] is None: r = self.L.set_str_field(self.db, p, c, t[1])
        else: return self.set(h, c, v)
        self.ev("set", h=h, c=c, v=v, r=r)
        return r
    def get(self, h, c):
        e = self.L.get_field(self.db, self.live[h], c)
        self.ev("get", h=h, c=c, v=self.dec(e))
    def len(self, h): self.ev("len", h=h, n=self.L.get_record_len(self.db, self.live[h]))
    def delete(self, h):
        r = self.L.delete_record(self.db, self.live[h])
        if r == 0:
            self.live_ptr.pop(self.live.pop(h)); self.lens.pop(h)
        self.ev("del", h=h, r=r)
        return r
    def scan_list(self):
        out, p, lim = [], self.L.get_first_record(self.db), len(self.live) + 20
        while p and len(out) < lim:
            out.append(self.live_ptr.get(p, 999999))
            p = self.L.get_next_record(self.db, p)
        return out
    def scan(self): self.ev("scan", r=self.scan_list())
    def parents(self, h):
        out, p, lim = [], self.L.get_first_parent(self.db, self.live[h]), len(self.live) + 20
        while p and len(out) < lim:
            out.append(self.live_ptr.get(p, 999999))
            p = self.L.get_next_parent(self.db, self.live[h], p)
        self.ev("par", h=h, r=out)
    def fields(self, h):
        p = self.live[h]
        return [self.dec(self.L.get_field(self.db, p, c)) for c in range(self.L.get_record_len(self.db, p))]
    def snap(self):
        hs = sorted(self.live)
        self.ev("snap", hs=hs, fs=[self.fields(h) for h in hs])
    def cmp(self, a, b, d=7):
        """compare two values as stored encoded values (records compared by reference)"""
        ea, eb = self.enc(a), self.enc(b)
        if d == 7 and ea == eb: r = self.L.vh_compare(self.db, ea, eb)
        elif ea == eb: r = 0
        else: r = self.L.vh_compare_depth(self.db, ea, eb, d)
        for v, e in ((a, ea), (b, eb)):
            if v > 0: self.L.free_encoded(self.db, e)
        self.ev("cmp", a=a, b=b, d=d, r=(r > 0) - (r < 0))
    def encfree(self, v):
        e = self.enc(v); w = self.dec(e)
        self.L.free_encoded(self.db, e)
        self.ev("enc", v=v, w=w)
    def copies(self, v, R):
        """lengths, copying decoders with buffers around the needed size, encoding an equal value twice"""
        t = self.vals[v - 1]; L, db = self.L, self.db
        e = self.enc(v); E = []
        if t[0] in 'sxub':
            ty, ex = dict(s=("str", "lang"), x=("xmlliteral", "xsdtype"), u=("uri", "prefix"), b=("blob", "type"))[t[0]]
            F = lambda n: getattr(L, "decode_%s_%s" % (ty, n))
            E.append(dict(op="lens", v=v, n=F("len")(db, e), e=F(ex + "_len")(db, e)))
            for part, text, f in ((0, t[1], F("copy")), (1, t[2] or b"", F(ex + "_copy"))):
                n = len(text)
                for b in sorted(set([0, 1, n - 1, n, n + 1, n + 2, n + R.randint(2, 70), R.randint(0, n + 1)])):
                    if b < 0: continue
                    buf = (C.c_ubyte * (b + 128))(*([0xA5] * (b + 128)))
                    r = f(db, e, C.addressof(buf) + 64, b)
                    raw = bytes(buf)
                    E.append(dict(op="copy", v=v, part=part, b=b, r=r, can=int(raw[:64] == b"\xa5" * 64 and raw[64 + b:] == b"\xa5" * 64),
                            ok=int(raw[64:64 + n] == text and (part == 0 and t[0] == 'b' or raw[64 + n] == 0))))
        e2 = self.enc(v)
        E.append(dict(op="same", v=v, r=int(e == e2)))
        L.free_encoded(db, e)
        if e2 != e: L.free_encoded(db, e2)
        for d in E: self.ev(**d)          # only now: a recorder may do things of its own at an event
    def outofrange(self, R):
        L, db = self.L, self.db
        k = R.randrange(7)
        big = R.choice([1, 2, 100, 10000, (1 << 24)])
        if k == 0: e = L.encode_fixpoint(db, R.choice([1, -1]) * (800 + R.choice([.0001, .001, 1, 5000, 8388607.5, 1e9, 1e18, 1e300, float("inf")])))
        elif k == 1: e = L.encode_date(db, R.choice([128 * 255 * 255 + big, -128 * 255 * 255 - big, (1 << 31) - 1, -(1 << 31)]))
        elif k == 2: e = L.encode_time(db, R.choice([8640000 + big, -big, (1 << 31) - 1, -(1 << 31)]))
        elif k == 3: e = L.encode_var(db, R.choice([(1 << 63) - 1, 1 << 59, -(1 << 59) - 1, 1 << 62, (1 << 60) + 5]))
        elif k == 4: e = R.choice([L.encode_str, L.encode_uri, L.encode_xmlliteral])(db, None, b"x")
        elif k == 5: e = L.encode_blob(db, None, None, R.choice([0, 4]))
        else: e = L.encode_blob(db, b"abc", R.choice([None, b"t"]), R.choice([-1, -2, -100, -(1 << 40)]))
        self.ev("refused", what=k, r=int(e == ILLEGAL))
    def upd(self, h, c, v, o):
        e, eo = self.enc(v), self.enc(o)
        r = self.L.update_atomic_field(self.db, self.live[h], c, e, eo)
        for x, y in ((v, e), (o, eo)):
            if x > 0: self.L.free_encoded(self.db, y)
        self.ev("upd", h=h, c=c, v=v, o=o, r=r)
    def aset(self, h, c, v):
        e = self.enc(v)
        r = self.L.set_atomic_field(self.db, self.live[h], c, e)
        if v > 0: self.L.free_encoded(self.db, e)
        self.ev("aset", h=h, c=c, v=v, r=r)
    def aadd(self, h, c, k):
        s = 0
        if 0 <= c < self.lens[h]:
            t = self.D.decode(self.L.get_field(self.db, self.live[h], c))
            if t[0] == 'i' and -(1 << 60) <= t[1] < (1 << 60):
                t = ('i', t[1] + k)
                if -(1 << 60) <= t[1] < (1 << 60): s = self.id(t)
        r = self.L.add_int_atomic_field(self.db, self.live[h], c, k)
        self.ev("aadd", h=h, c=c, k=k, s=s, r=r)
    # ---- indexes
    def tmpl_array(self, tmpl):
        a = (G * max(1, len(tmpl)))(*[self.enc(v) for v in tmpl]); return a
    def free_tmpl(self, tmpl, a, used=False):
        # a template value that the library did not keep is released again; long strings are reference counted
        for v, e in zip(tmpl, a):
            if v > 0 and (not used or self.L.vh_is_longstr(e)): self.L.free_encoded(self.db, e)
    def index_ids(self):
        n = G(0)
        p = self.L.get_all_indexes(self.db, C.byref(n))
        out = []
        if p:
            out = list((G * n.value).from_address(p)); self.L.vh_free(p)
        return out
    def mkidx(self, cols, typ, tmpl=None):
        a = self.tmpl_array(tmpl) if tmpl is not None else None
        ca = (G * max(1, len(cols)))(*cols)
        before = set(self.idxh)
        if len(cols) == 1: r = self.L.create_index(self.db, cols[0], typ, a, len(tmpl) if tmpl is not None else 0)
        else: r = self.L.create_multi_index(self.db, ca, len(cols), typ, a, len(tmpl) if tmpl is not None else 0)
        i = 0
        if r == 0:
            iid = self.L.multi_column_to_index_id(self.db, ca, len(cols), typ, a, len(tmpl) if tmpl is not None else 0)
            i = self.next_i; self.next_i += 1
            self.idxh[iid] = i; self.idx[i] = dict(id=iid, cols=sorted(cols), type=typ, tmpl=tmpl)
        self.ev("mkidx", cols=cols, type=typ, tmpl=tmpl or [], hast=int(tmpl is not None), r=r, i=i)
        return i
    def drop(self, i, iid=None):
        iid = self.idx[i]["id"] if iid is None else iid
        r = self.L.drop_index(self.db, iid)
        if r == 0 and i in self.idx: self.idxh.pop(iid, None); self.idx.pop(i)
        self.ev("drop", i=i, r=r)
    def allidx(self): self.ev("allidx", r=[self.idxh.get(x, 999999) for x in self.index_ids()])
    def look(self, cols, typ, tmpl=None):
        a = self.tmpl_array(tmpl) if tmpl is not None else None
        n = len(tmpl) if tmpl is not None else 0
        if len(cols) == 1: r = self.L.column_to_index_id(self.db, cols[0], typ, a, n)
        else: r = self.L.multi_column_to_index_id(self.db, (G * len(cols))(*cols), len(cols), typ, a, n)
        if tmpl is not None: self.free_tmpl(tmpl, a)
        self.ev("look", cols=cols, type=typ, tmpl=tmpl or [], r=self.idxh.get(r, 999999) if r > 0 else -1)
    def idxtype(self, i, iid=None):
        iid = self.idx[i]["id"] if iid is None else iid
        self.ev("idxtype", i=i, r=self.L.get_index_type(self.db, iid))
    def idxtmpl(self, i):
        n = G(0)
        p = self.L.get_index_template(self.db, self.idx[i]["id"], C.byref(n))
        self.ev("idxtmpl", i=i, r=[self.dec(x) for x in (G * min(n.value, 200)).from_address(p)] if p else [])
    def h_of_off(self, off): return self.live_ptr.get(self.L.vh_ptr(self.db, off), 999999)
    def ttree(self, i):
        a = self.L.arr(self.L.vh_ttree, self.db, self.idx[i]["id"])
        if a is None: self.ev("ttree", i=i, nodes=[], mn=-1, mx=-1, cap=0, bad=1); return
        root, mn, mx, cap = a[:4]; w = 11 + cap
        raw = [a[k:k + w] for k in range(4, len(a), w)]
        num = {r[0]: k + 1 for k, r in enumerate(raw)}
        N = lambda o: o if o == -1 else num.get(o, 0 if o == 0 else 999999)
        nodes = []
        for r in raw:
            n = r[6]
            nodes.append(dict(p=N(r[1]), l=N(r[2]), r=N(r[3]), lh=r[4], rh=r[5], n=n, s=N(r[9]), d=N(r[10]),
                              mn=self.dec(r[7]) if n > 0 else 0, mx=self.dec(r[8]) if n > 0 else 0,
                              e=[self.h_of_off(x) for x in r[11:11 + max(0, min(n, cap))]]))
        self.ev("ttree", i=i, nodes=nodes, mn=N(mn), mx=N(mx), cap=cap)
    def hashidx(self, i):
        a = self.L.arr(self.L.vh_hashidx, self.db, self.idx[i]["id"])
        if a is None: a = [0, 0]
        self.ev("hashidx", i=i, r=[self.h_of_off(x) for x in a[1::2]])
    def hsearch(self, i, vals):
        arr = (G * len(vals))(*[self.enc(v) for v in vals])
        off = self.L.search_hash(self.db, self.idx[i]["id"], arr, len(vals))
        out = []
        while off > 0 and len(out) < len(self.live) + 20:
            car, cdr = (G * 2).from_address(self.L.vh_ptr(self.db, off))
            out.append(self.h_of_off(car)); off = cdr
        for v, e in zip(vals, arr):
            if v > 0: self.L.free_encoded(self.db, e)
        self.ev("hsearch", i=i, vals=vals, r=out)
    # ---- queries
    def build_query(self, conds, m=(), limit=0, param=True, mrec=None):
        """-> query pointer, cleanup function"""
        L, db = self.L, self.db
        al = (QArg * max(1, len(conds)))()
        encs = []
        for k, (c, op, v) in enumerate(conds):
            usep = param and not (v > 0 and self.vals[v - 1][0] == 'b')
            e = self.enc(v, param=usep); encs.append((v, e, usep))
            al[k].column, al[k].cond, al[k].value = c, op, e
        marr = None
        if mrec is not None: mp, ml = mrec, 0
        elif m:
            ms = [self.enc(v) for v in m]; encs += [(v, e, False) for v, e in zip(m, ms)]
            marr = (G * len(m))(*ms); mp, ml = C.cast(marr, P), len(m)
        else: mp, ml = None, 0
        ap = C.cast(al, P) if conds else None
        if limit: q = L.make_query_rc(db, mp, ml, ap, len(conds), limit)
        else: q = L.make_query(db, mp, ml, ap, len(conds))
        def cleanup():
            for v, e, p in encs:
                if p: L.free_query_param(db, e)
                elif v > 0: L.free_encoded(db, e)
        return q, cleanup
    def fetch(self, q, n=None):
        out = []
        lim = len(self.live) + 50 if n is None else n
        while len(out) < lim:
            p = self.L.fetch(self.db, q)
            if not p: break
            out.append(self.live_ptr.get(p, 999999))
        return out
    def query(self, conds, m=(), limit=0, param=True, mrec=None, mvals=None):
        q, clean = self.build_query(conds, m, limit, param, mrec)
        if not q: self.ev("query", conds=conds, m=list(m), limit=limit, r=[999998], cnt=-1); clean(); return
        cnt = self.L.vh_query_count(q)
        rows = self.fetch(q)
        self.L.free_query(self.db, q); clean()
        self.ev("query", conds=conds, m=list(mvals if mvals is not None else m), limit=limit, r=rows, cnt=min(cnt, 1000000000))
    # queries that stay open: opening fixes the row set, fetching hands it out
    def qopen(self, conds, m=(), limit=0):
        q, clean = self.build_query(conds, m, limit)
        clean()
        if not q: self.ev("qopen", q=0, conds=conds, m=list(m), limit=limit, cnt=-1); return None
        self.next_q += 1; k = self.next_q
        self.openq[k] = q
        self.ev("qopen", q=k, conds=conds, m=list(m), limit=limit, cnt=self.L.vh_query_count(q))
        return k
    def qfetch(self, k, n):
        self.ev("qfetch", q=k, n=n, r=self.fetch(self.openq[k], n))
    def qclose(self, k):
        self.L.free_query(self.db, self.openq.pop(k))
        self.ev("qclose", q=k)
    # ---- shared values: every stored long string exactly once, with as many owners as fields hold it
    # ---- storage accounting: everything in use belongs to something in the abstract state
    def fixused(self, a):
        x = self.L.arr(self.L.vh_subareas, self.db, a); n = self.L.vh_objlength(self.db, a); f = self.L.arr(self.L.vh_fixfree, self.db, a)
        return -1 if f is None else sum(x[k + 1] // n for k in range(0, len(x), 4)) - len(f)
    def varused(self, a):
        x = self.L.arr(self.L.vh_objects, self.db, a)
        return [-1] if x is None else [x[k] for k in range(0, len(x), 4) if x[k + 2] == 0]
    def acct(self):
        recs = self.varused(0)
        data = [o for o in recs if o > 0 and not self.L.vh_meta(self.db, self.L.vh_ptr(self.db, o)) & 1]
        f = [self.fixused(a) - b for a, b in zip((3, 4, 5, 6, 7, 8, 9), self.base)]
        v = [len(self.varused(a)) - len(b) for a, b in zip((1, 2), self.bases)]
        self.ev("acct", recs=data, other=len(recs) - len(data), special=self.specials, cells=f[0], shorts=f[1], words=f[2], dwords=f[3], tnodes=f[4], hdrs=f[5], tmpls=f[6], longs=v[0], keys=v[1])
    def strs(self):
        out = []
        a = self.L.arr(self.L.vh_strhash, self.db)
        if a is None: self.ev("strs", r=[[999999, 0]]); return
        self.ev("strs", r=[[self.dec(a[k]), a[k + 1]] for k in range(0, len(a), 2)])
    def find(self, c, cond, v, typed=False):
        L, db = self.L, self.db
        t = self.tok(v); e = None
        if typed and t[0] == 'i' and -(1 << 31) <= t[1] < (1 << 31): f = lambda last: L.find_record_int(db, c, cond, t[1], last)
        elif typed and t[0] == 's' and t[2] is None: f = lambda last: L.find_record_str(db, c, cond, t[1], last)
        elif typed and t[0] == 'd': f = lambda last: L.find_record_double(db, c, cond, bitsd(t[1]), last)
        elif typed and t[0] == 'D': f = lambda last: L.find_record_date(db, c, cond, t[1], last)
        elif typed and t[0] == 'T': f = lambda last: L.find_record_time(db, c, cond, t[1], last)
        elif typed and t[0] == 'c': f = lambda last: L.find_record_char(db, c, cond, bytes([t[1]]), last)
        elif typed and t[0] == 'f': f = lambda last: L.find_record_fixpoint(db, c, cond, t[1] / 10000.0, last)
        elif typed and t[0] == 'v': f = lambda last: L.find_record_var(db, c, cond, t[1], last)
        elif typed and t[0] == 'n': f = lambda last: L.find_record_null(db, c, cond, None, last)
        elif typed and t[0] == 'x': f = lambda last: L.find_record_xmlliteral(db, c, cond, t[1], t[2], last)
        elif typed and t[0] == 'u': f = lambda last: L.find_record_uri(db, c, cond, t[1], t[2], last)
        elif typed and t[0] == 'r': f = lambda last: L.find_record_record(db, c, cond, t[1], last)
        else:
            e = self.enc(v); f = lambda last: L.find_record(db, c, cond, e, last)
        out, p = [], f(None)
        while p and len(out) < len(self.live) + 20:
            out.append(self.live_ptr.get(p, 999999)); p = f(p)
        if e is not None and v > 0: L.free_encoded(db, e)
        self.ev("find", c=c, cond=cond, v=v, r=out)

# ---- value generators ------------------------------------------------------------------------
INTS = [0, 1, -1, 2, 3, 7, 10, 100, -100, 255, 65536, (1 << 31) - 1, 1 << 31, -(1 << 31), -(1 << 31) - 1, (1 << 32) + 5, 5,
        (1 << 40), (1 << 60) - 1, 1 << 60, -(1 << 60), -(1 << 60) - 1, (1 << 60) + 5, (1 << 61), -(1 << 61), MAXI, MINI, MAXI - 1, MINI + 1]
DOUBLES = [0.0, -0.0, 1.0, -1.0, 0.5, 1e300, -1e300, 5e-324, -5e-324, float("inf"), float("-inf"), 1.0000000000000002, 3.25, 100.0, 1e17]
def rint(R):
    k = R.random()
    if k < .5: return R.choice(INTS)
    if k < .8: return R.randint(-20, 20)
    return R.choice([-1, 1]) * R.getrandbits(R.randint(1, 62))
LENS = [0, 1, 2, 3, 7, 8, 15, 16, 23, 24, 30, 31, 32, 33, 34, 39, 40, 41, 63, 64, 65, 100, 127, 128, 255, 256, 300, 1000, 4000]
def rbytes(R, n, alpha=b"ab\xc3z~ "):
    if n == 0: return b""
    if R.random() < .4: return (b"a" * (n - 1)) + bytes([R.choice(alpha)])
    if R.random() < .5: return bytes([R.choice(alpha)]) + b"a" * (n - 1)
    return bytes(R.choice(alpha) for _ in range(n))
def rstr(R): return rbytes(R, R.choice(LENS) if R.random() < .8 else R.randint(0, 70))
def rextra(R, opt=True):
    if opt and R.random() < .4: return None
    return R.choice([b"en", b"et", b"x" * 31, b"x" * 32, b"l" * 40, b"xsd:int", b"http://example.com/some/longer/prefix#"])
# values whose keys meet in one chain of a hash table (of the string table, of a hash index): the drivers know the
# hash function only to choose such values; what the chains must answer does not depend on it
def _sdbm(b):
    h = 0
    for c in b: h = (c + h * 65599) & 0xffffffffffffffff
    return h % 10000
@functools.lru_cache(None)
def _chains():
    G = []
    def meet(vals, h, size):
        d = {}
        for v in vals: d.setdefault(h(v), []).append(v)
        G.extend(x[:size] for x in sorted(d.values(), key=lambda x: (-len(x), str(x)))[:6])
    strs = [('s', b"chain %d " % i + b"." * (28 + i % 9), None) for i in range(20000)]
    meet(strs, lambda v: _sdbm(v[1] + b'\0'), 5)                                               # the string table
    for k, E in (('u', b"http://example.com/some/longer/prefix#"), ('x', b"a longer type of a literal, 39 bytes on"), ('s', b"a language with a rather long name: " + b"l" * 9), ('b', b"a type of a blob that is longer than 31")):
        t = _sdbm(E + b'\0'); own = [('s', E, None)]
        own += [v for v in ((k, (b"text %d" % i).ljust(40, b"-") if k != 'b' else b"blob %d" % i, E) for i in range(40000)) if _sdbm(v[1] + (b'' if k == 'b' else b'\0') + E) == t][:3]
        own += [v for v in strs if _sdbm(v[1] + b'\0') == t][:2]
        G.append(own)                                                                       # a string and its second part
    vals = [('i', i) for i in range(-3000, 9000)] + [('i', (1 << 61) + i) for i in range(9000)] + [('s', b"k%d" % i, None) for i in range(9000)] + strs[:9000]
    def ix(v): return _sdbm(b"\x03" + struct.pack("<q", v[1])) if v[0] == 'i' else _sdbm(b"\x05" + v[1])
    meet(vals, ix, 7)                                                                       # a hash index
    return G
def chain(R):
    if not hasattr(R, "chain"): G = _chains(); R.chain = sum((R.choice(G) for _ in range(R.choice([1, 1, 2]))), [])
    return R.choice(R.chain)
def rvalue(R, types):
    t = R.choice(types)
    if t == 'H': return chain(R)
    if t == 'n': return ('n',)
    if t == 'i': return ('i', rint(R))
    if t == 'I': return ('i', R.randint(0, 9))
    if t == 'd': return ('d', dbits(R.choice(DOUBLES) if R.random() < .8 else R.uniform(-10, 10)))
    if t == 'N': return ('d', R.choice([0x7ff8000000000000, 0xfff8000000000000, 0x7ff8000000000001]))
    if t == 'f': return ('f', R.choice([0, 1, -1, 8000000, -8000000, 7999999, 12345, -12345, R.randint(-8000000, 8000000)]))
    if t == 'c': return ('c', R.choice([0x20, 0x41, 0x61, 0x7f, 0x01, 0x80, 0xff, 0xe9]))
    if t == 'D': return ('D', R.choice([0, 1, 2, 733773, 128 * 255 * 255, R.randint(1, 3000000)]))
    if t == 'T': return ('T', R.choice([0, 1, 8639999, 8388607, 8388608, 4320000, R.randint(0, 8639999)]))
    if t == 'v': return ('v', R.choice([0, 1, 2, 100, (1 << 40)]))
    if t == 's':
        s = rstr(R); return ('s', s, rextra(R) if R.random() < .3 else None)
    if t == 'S': return ('s', R.choice([b"", b"a", b"b", b"ab", b"a" * 31, b"a" * 32, b"a" * 33, b"b" * 40, b"a" * 39 + b"b"]), None)
    if t == 'x': return ('x', rstr(R), rextra(R, False))
    if t == 'u': return ('u', rstr(R), rextra(R))
    if t == 'b':
        n = R.choice(LENS); s = bytes(R.choice([0, 0, 1, 97, 255]) for _ in range(n)); return ('b', s, rextra(R, False))
    if t == 'Z':                                       # keys whose bytes could be read as several fields
        sep = R.choice([b"", b"\0", b"\x05", b"\0\x05", b"\0\x08", b"\x08", b"\x03"])
        a, b = R.choice([b"a", b"b", b""]), R.choice([b"a", b"b", b"c", b""])
        z = a + sep + b
        k = R.choice("sbbxu")
        if k == 's': return ('s', z.replace(b"\0", b""), R.choice([None, None, b"a"]))
        if k == 'b': return ('b', z or b"\0", R.choice([None, b"a", b"b"]))
        return (k, z.replace(b"\0", b""), R.choice([b"a", b"b", b"a\x05"]))
    raise ValueError(t)

@contextlib.contextmanager
def observing(out):
    """drivers are written for answers the interface allows; an answer that makes one of them fail (a negative
    length, a pointer that is no record, ...) is written down for the verdict.  Trouble of the machine is not."""
    try: yield
    except (OSError, MemoryError, ImportError, AttributeError, NameError, KeyboardInterrupt): raise
    except Exception as e:
        json.dump(dict(text="impossible answer: %s: %s" % (type(e).__name__, e), where=traceback.format_exc()[-1500:]),
                  open(os.path.join(out, "violation.json"), "w"))
        sys.exit(3)
