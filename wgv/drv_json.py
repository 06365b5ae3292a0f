"""JSON documents: texts stored, printed, changed, queried and deleted, for JsonTrace.tla.  profile: parse | big | hist"""
import ctypes as C, json, os, random, re, struct, sys
from .api import *
from .store import observing
NUM = re.compile(rb"-?(?:0|[1-9][0-9]*)(?:\.[0-9]+)?(?:[eE][+-]?[0-9]+)?")
NUMTOK = re.compile(rb"[-+0-9.eE]+")
PRINTCB = C.CFUNCTYPE(None, C.c_void_p, C.c_void_p, C.c_size_t)
AREAS = dict(cells=3, shorts=4, words=5, dwords=6)
class Docs:
    def __init__(self, lib, out):
        self.L = Lib(lib); self.f = open(os.path.join(out, "trace.ndjson"), "w", buffering=1 << 16); self.out = out; self.nev = 0; self.ops = {}; self.db = None
        f = self.L.dll.wg_print_json_document; f.restype = None; f.argtypes = [P, P, P, P]; self.pr = f
    def ev(self, op, **kw):
        kw["op"] = op; self.f.write(json.dumps(kw, separators=(",", ":")) + "\n"); self.nev += 1; self.ops[op] = self.ops.get(op, 0) + 1
    def close(self):
        json.dump(dict(events=self.nev, ops=self.ops), open(os.path.join(self.out, "meta.json"), "w"))
        json.dump({}, open(os.path.join(self.out, "vals.json"), "w")); self.f.close()
    # ---- observation
    def used(self, a):
        x = self.L.arr(self.L.vh_subareas, self.db, a); n = self.L.vh_objlength(self.db, a); f = self.L.arr(self.L.vh_fixfree, self.db, a)
        return -999 if f is None or x is None else sum(x[k + 1] // n for k in range(0, len(x), 4)) - len(f)
    def longs(self):
        x = self.L.arr(self.L.vh_objects, self.db, 1)
        return -999 if x is None else len([k for k in range(0, len(x), 4) if x[k + 2] == 0])
    def usage(self):
        u = {n: self.used(a) for n, a in AREAS.items()}; u["longs"] = self.longs(); return u
    def fresh(self, size=3000000):
        if self.db: self.L.delete_local_database(self.db)
        self.db = self.L.attach_local_database(size); self.D = Db(self.L, self.db)
        self.base = self.usage(); self.heap = {}; self.num = {}; self.ptr = {}; self.n = 0; self.idx = []
        self.ev("fresh")
    def val(self, e):
        v = self.D.decode(e); t = v[0]
        if t == 'n': return ["n"]
        if t == 'i': return ["i", list(b"%d" % v[1])]
        if t == 'd': return ["d", struct.pack(">Q", v[1]).hex()]
        if t == 's' and v[2] is None: return ["s", list(v[1])]
        if t == 'r': return ["r", v[1]]
        return ["?"]
    def dump(self):
        L, db = self.L, self.db; out = {}; a = L.arr(L.vh_allrecs, db)
        for off, meta in zip(a[::2], a[1::2]):
            if off in self.special_offs: continue
            p = L.vh_ptr(db, off)
            kind = {0x20: "o", 0x40: "a", 0: "r"}.get(meta & 0x60, "?"); par = {0: 0, 3: 1}.get(meta & 3, 2)
            out[p] = (kind, 1 if meta & 0x10 else 0, par, [self.val(L.get_field(db, p, k)) for k in range(L.get_record_len(db, p))])
        return out
    special_offs = (); acct = 1
    def diff(self):
        """what changed in the records since the last look"""
        now = self.dump(); new, chg, gone = [], [], []
        for p in list(self.num):
            if p not in now: gone.append(self.num.pop(p)); del self.heap[gone[-1]]; del self.ptr[gone[-1]]
        fresh = [p for p in now if p not in self.num]
        for p in fresh: self.n += 1; self.num[p] = self.n; self.ptr[self.n] = p
        for p, (k, d, par, f) in now.items():
            f = [["r", self.num.get(x[1], 999999)] if x[0] == "r" else x for x in f]; r = dict(id=self.num[p], k=k, doc=d, par=par, f=f)
            if p in fresh: new.append(r)
            elif self.heap[self.num[p]] != r: chg.append(r)
            self.heap[self.num[p]] = r
        u = self.usage()
        return dict(new=new, gone=gone, chg=chg, use={k: u[k] - self.base[k] for k in u}, idx=1 if self.idx else 0, acct=self.acct)
    def nums(self, s):
        out = {}
        for t in set(NUMTOK.findall(s)):
            if NUM.fullmatch(t) and re.search(rb"[.eE]", t):
                x = float(t); out[t] = "inf" if x in (float("inf"), -float("inf")) else struct.pack(">d", x).hex()
        return [[list(k), v] for k, v in sorted(out.items())]
    # ---- calls
    def text(self, s): return dict(s=list(s), num=self.nums(s))
    def check(self, s): self.ev("check", r=self.L.check_json(self.db, s), **self.text(s), **self.diff())
    def path(self): return os.path.join(self.out, "f.json").encode()
    def file(self, s):
        open(self.path(), "wb").write(s); before = set(self.num)
        r = self.L.parse_json_file(self.db, self.path()); d = self.diff()
        tops = [x["id"] for x in d["new"] if x["doc"]]; id = tops[0] if tops else 0
        self.ev("file", r=r, id=id, **self.text(s), **d); return id
    def parse(self, s, kind="document"):
        q = C.c_void_p(0); f = getattr(self.L, "parse_json_" + kind)
        r = f(self.db, s, C.byref(q)); d = self.diff()
        id = self.num.get(q.value, 0) if r == 0 else 0
        self.ev("parse", kind=kind, r=r, id=id, **self.text(s), **d); return id
    def show(self, id):
        buf = []
        cb = PRINTCB(lambda ctx, p, n: buf.append(C.string_at(p, n)))
        self.pr(self.db, C.cast(cb, P), None, self.ptr[id]); s = b"".join(buf)
        self.ev("print", id=id, **self.text(s), **self.diff()); return s
    def row(self, f):
        L, db = self.L, self.db; p = L.create_record(db, len(f))
        for k, v in enumerate(f): assert L.set_field(db, p, k, self.enc(v)) == 0
        d = self.diff(); id = self.num[p]; self.ev("row", id=id, f=self.heap[id]["f"], **d); return id
    def enc(self, v):
        t = v[0]
        if t == "r": return self.L.encode_record(self.db, self.ptr[v[1]])
        if t == "n": return 0
        if t == "i": return self.L.encode_int(self.db, v[1])
        if t == "d": return self.L.encode_double(self.db, v[1])
        return self.L.encode_str(self.db, v[1], None)
    def set(self, id, c, v):
        r = self.L.set_field(self.db, self.ptr[id], c, self.enc(v)); d = self.diff()
        self.ev("set", id=id, c=c, v=self.tok(v), r=r, **d)
    def tok(self, v):
        t = v[0]
        return {"n": lambda: ["n"], "i": lambda: ["i", list(b"%d" % v[1])], "d": lambda: ["d", struct.pack(">d", v[1]).hex()],
                "s": lambda: ["s", list(v[1])], "r": lambda: ["r", v[1]]}[t]()
    def delete(self, id):
        r = self.L.delete_document(self.db, self.ptr[id]); self.ev("delete", id=id, r=r, **self.diff())
    def scan(self):
        L, db = self.L, self.db; out = []; p = L.get_first_record(db)
        while p and len(out) < 100000: out.append(self.num.get(p, 999999)); p = L.get_next_record(db, p)
        self.ev("scan", r=out, **self.diff())
    def find(self, id):
        q = self.L.find_document(self.db, self.ptr[id]); self.ev("find", id=id, r=self.num.get(q, 999999) if q else 0, **self.diff())
    def param(self, v):
        L, db, t = self.L, self.db, v[0]
        if t == "r": return L.encode_query_param_record(db, self.ptr[v[1]])
        if t == "n": return L.encode_query_param_null(db, None)
        if t == "i": return L.encode_query_param_int(db, v[1])
        if t == "d": return L.encode_query_param_double(db, v[1])
        return L.encode_query_param_str(db, v[1], None)
    def query(self, args):
        L, db = self.L, self.db; A = (JArg * len(args))()
        for k, (a, b) in enumerate(args): A[k].key = self.param(a); A[k].value = self.param(b)
        q = L.make_json_query(db, A, len(args)); out = []
        if not q: out = [999999]
        else:
            p = L.fetch(db, q)
            while p and len(out) < 1000: out.append(self.num.get(p, 999999)); p = L.fetch(db, q)
            L.free_query(db, q)
        for k, (a, b) in enumerate(args): L.free_query_param(db, A[k].key); L.free_query_param(db, A[k].value)
        self.ev("query", args=[[self.tok(a), self.tok(b)] for a, b in args], r=out, **self.diff())
    def mkindex(self, typ, cols):
        L, db = self.L, self.db
        arr = (G * len(cols))(*cols)
        if L.create_multi_index(db, arr, len(cols), typ, None, 0) != 0: return
        i = L.multi_column_to_index_id(db, arr, len(cols), typ, None, 0)
        # what the index itself takes is not storage of the documents
        self.idx.append((typ, cols, i)); self.index(self.idx[-1])
    def index(self, x):
        typ, cols, i = x; L = self.L
        if typ >= 60:
            a = L.arr(L.vh_hashidx, self.db, i); r = [L.vh_ptr(self.db, o) for o in a[1::2]] if a is not None else [0]
        else:
            a = L.arr(L.vh_ttree, self.db, i); r = [0]
            if a is not None:
                w = 11 + a[3]; raw = [a[k:k + w] for k in range(4, len(a), w)]; r = [L.vh_ptr(self.db, o) for t in raw for o in t[11:11 + t[6]]]
        self.ev("index", type=typ, cols=cols, r=[self.num.get(p, 999999) for p in r], **self.diff())
    def drop(self, k):
        if self.L.drop_index(self.db, self.idx[k][2]) == 0: self.idx.pop(k)
    # ---- shape of what is there (to choose calls, not to judge them)
    def kids(self, id): return [v[1] for v in self.heap[id]["f"] if v[0] == "r"]
    def closure(self, id):
        seen, todo = set(), [id]
        while todo:
            x = todo.pop()
            if x not in seen and x in self.heap: seen.add(x); todo += self.kids(x)
        return seen
    def height(self, id, k=40): return 1 + max([self.height(x, k - 1) for x in self.kids(id)], default=0) if k else 99
    def up(self, id):
        """levels above a record"""
        return 1 + max([self.up(p) for p in self.heap if id in self.kids(p)], default=0)
    def shared(self):
        n = {}
        for r in self.heap:
            for k in self.kids(r): n[k] = n.get(k, 0) + 1
        return [k for k in n if n[k] > 1]
    def docs(self): return [r for r in self.heap if self.heap[r]["doc"] and not self.heap[r]["par"]]

# ---- texts -----------------------------------------------------------------------------------
WORDS = [b"", b"a", b"b", b"key", b"x y", b'q"', b"back\\slash", b"/", b"\t\n", b"\x01", b"\x7f", "\u00e4\u00f6".encode(), "\u20ac".encode(), "\U0001f600".encode(), "\x80\u07ff".encode(), "\u0800\uffff".encode(), "\U00010000\U0010ffff".encode(), "\ufffd\ud7ff\ue000".encode(), "\u7fff\ud7fb".encode(),
         b"a" * 31, b"a" * 32, b"a" * 40, b"k" * 78, b"k" * 79, b"k" * 80, b"k" * 81, b"k" * 79 + b"z", b"z" * 200, b"null", b"1", b"{}"]
INTS = [0, 1, -1, 2, 10, 255, -256, 1 << 31, (1 << 60) - 1, 1 << 60, -(1 << 60), -(1 << 60) - 1, (1 << 61), (1 << 63) - 1, -(1 << 63) + 1, 12345678901234567]
DBLS = [b"0.0", b"1.0", b"0.5", b"-0.0", b"1e5", b"1E-7", b"1.5e+300", b"123456789.125", b"0.1", b"1e-320", b"3.141592653589793", b"2.2250738585072014e-308", b"1.7976931348623157e308", b"100000000000000000000.0", b"1e22", b"4e-324", b"1e-400"]
def rval(R, depth, rich=True):
    k = R.random()
    if depth > 0 and k < .3: return ("a", [rval(R, depth - 1, rich) for _ in range(R.choice([0, 1, 1, 2, 3, 5]))])
    if depth > 0 and k < .6: return ("o", [(rkey(R, rich), rval(R, depth - 1, rich)) for _ in range(R.choice([0, 1, 1, 2, 3]))])
    if k < .7: return ("n",)
    if k < .85: return ("i", R.choice(INTS) if rich else R.randint(0, 3))
    if k < .92: return ("D", R.choice(DBLS) if rich else R.choice([b"0.5", b"1.0", b"2.5"]))
    return ("s", rtext(R) if rich else R.choice([b"a", b"b", b"", b"v" * 40]))
def rkey(R, rich): return rtext(R) if rich else R.choice([b"a", b"b", b"c", b"long" * 10])
def rtext(R):
    k = R.random()
    if k < .8: return R.choice(WORDS)
    return b"".join(R.choice(WORDS) for _ in range(R.randint(1, 4)))
def rdoc(R, depth, rich=True):
    """a document: array or object, sometimes as deep as is allowed"""
    if R.random() < .15:
        v = rval(R, 0, rich); n = R.choice([depth, depth, depth - 1, 3])
        for k in range(n): v = ("a", [v]) if R.random() < .4 else ("o", [(rkey(R, rich), v)])
        return v
    while True:
        v = rval(R, R.choice([1, 2, 3, min(5, depth), depth]), rich)
        if v[0] in "ao": return v
def ws(R, much):
    if not much or R.random() < .6: return b""
    return R.choice([b" ", b"\n", b"\t", b"\r\n", b"  ", b"/* c */", b"/**/", b"// x\n", b"/* * / \" [ */", b"/***/", b"//\n"])
def wstr(R, s, plain):
    out = b'"'
    for ch in s.decode():
        o = ord(ch)
        if o < 32 or ch in '"\\':
            short = {8: b"\\b", 12: b"\\f", 10: b"\\n", 13: b"\\r", 9: b"\\t", 34: b'\\"', 92: b"\\\\"}
            out += short[o] if o in short and R.random() < .7 else b"\\u%04x" % o
        elif ch == "/" and R.random() < .5: out += b"\\/"
        elif not plain and R.random() < .1:
            if o > 0xffff: o -= 0x10000; out += b"\\u%04X\\u%04x" % (0xd800 + (o >> 10), 0xdc00 + (o & 1023))
            else: out += (b"\\u%04X" if R.random() < .5 else b"\\u%04x") % o
        else: out += ch.encode()
    return out + b'"'
def wtext(R, v, much=True):
    t = v[0]; w = lambda: ws(R, much)
    if t == "n": return b"null"
    if t == "i": return b"%d" % v[1] if v[1] or R.random() < .9 else b"-0"
    if t == "D": return v[1]
    if t == "s": return wstr(R, v[1], not much)
    if t == "a": return b"[" + w() + (w() + b"," + w()).join(wtext(R, x, much) for x in v[1]) + w() + b"]"
    return b"{" + w() + (w() + b"," + w()).join(wstr(R, k, not much) + w() + b":" + w() + wtext(R, x, much) for k, x in v[1]) + w() + b"}"
BAD = [b"", b" ", b"null", b"1", b'"a"', b"[", b"]", b"{", b"}", b"[1", b'{"a"', b'{"a":', b'{"a":1', b"[1,]", b"[,1]", b"[1 2]", b'{"a":1,}', b'{"a" 1}', b'{a:1}', b"{'a':1}", b"[01]", b"[1.]", b"[.5]", b"[-]", b"[+1]",
       b"[1e]", b"[1e+]", b"[nul]", b"[nulll]", b"[NULL]", b'["a]', b'["\\x"]', b'["\\u12"]', b'["\\u12g4"]', b'["\n"]', b'["\x01"]', b'["\xc3"]', b'["\x80"]', b'["\xe2\x82"]', b'["\xf8\x88\x80\x80\x80"]', b'["a\\u0000b"]', b'{"\\u0000":1}',
       b"[1]]", b"[1] 2", b"{} {}", b"[9223372036854775808]", b"[-9223372036854775809]", b"[1e400]", b"[-1e309]", b"[1]x", b"[1]/", b"[1]/*", b"[1]/* *", b"[/]", b"[1]//", b"[1] // end\n", b"[}", b"{]", b"[1:2]", b'{1:2}', b'{"a":[1}', b"[[]", b"\xef\xbb\xbf[1]", b"[1,\"a\",{}"]
def mutate(R, s):
    if R.random() < .12: return s + R.choice([b'"', b'"a', b' "a"', b"/*", b"/* a", b"/* */", b"//", b"// a", b"//\n", b"/", b"1", b"n", b"\\", b" "])
    for _ in range(R.choice([1, 1, 2])):
        k = R.randrange(5); i = R.randrange(len(s) + 1); c = R.choice([b",", b"[", b"]", b"{", b"}", b'"', b":", b"0", b"-", b".", b"e", b"\\", b"/", b"n", b"null", b" ", b"\xc3", b"\x02", b"\\u0000", b"1"])
        if k == 0: s = s[:i] + s[i + 1:]
        elif k == 1: s = s[:i] + c + s[i:]
        elif k == 2: s = s[:i] + c + s[i + 1:]
        elif k == 3: s = s[:i]
        else: j = R.randrange(len(s) + 1); s = s[:min(i, j)] + s[max(i, j):]
    return s
def odd(s, bytes_too=True):
    """texts whose meaning differs between readers: surrogates that are no pair, true and false"""
    return bool(re.search(rb"\\u[dD][89a-fA-F]", s)) or b"true" in s or b"false" in s or b"\0" in s or bytes_too and bool(re.search(rb"[\xe0\xed\xf0-\xf4\xc0\xc1]", s))
def feed(d, R, s):
    """a text through one of the entry points -> number of the document or 0"""
    k = R.randrange(5)
    if k == 0: d.check(s); return 0
    if k == 1: return d.file(s)
    return d.parse(s, R.choice(["document", "document", "fragment", "param"]))
def h_parse(d, R):
    d.fresh()
    for _ in range(R.choice([6, 10])):
        k = R.random()
        if k < .15: s = R.choice(BAD)
        else:
            s = wtext(R, rdoc(R, R.choice([7, 7, 8, 3])), R.random() < .7)
            if len(s) > 1500: continue
            if k < .4:
                s = mutate(R, s)
                if odd(s): continue
        id = feed(d, R, s)
        if id and R.random() < .7: d.show(id)
        if R.random() < .1: d.scan()
        if len(d.heap) > 200: d.fresh()
        if R.random() < .15 and d.docs(): d.delete(R.choice(d.docs()))
def h_big(d, R):
    """texts around the size that is read at once"""
    CH = 16384; d.fresh()
    for _ in range(R.choice([1, 2])):
        n = CH * R.choice([1, 1, 1, 2]) + R.choice([0, 0, 0, 1, -1, 2, 7])
        v = rdoc(R, 4, R.random() < .5); s = wtext(R, v)
        pad = n - len(s)
        if pad < 1: continue
        k = R.randrange(4)
        if k == 0: t = b" " * pad + s
        elif k == 1: t = s + b"\n" * pad
        elif k == 2 and pad > 20: t = b'["' + b"s" * (pad - 5) + b'",' + s + b"]"
        else: t = s[:1] + b" " * (pad - R.randint(0, min(pad, len(s)))); t += b" " * (n - len(t) - len(s) + 1) + s[1:]
        # the end of the first part falls somewhere into the text
        if k == 3: cut = R.randrange(len(s)); t = b" " * (CH - cut) + s if len(s) > cut else t
        id = d.file(t) if R.random() < .6 else feed(d, R, t)
        if id and R.random() < .5: d.show(id)
        t = mutate(R, t)
        if R.random() < .3 and not odd(t): d.file(t)
LIT = [("n",), ("i", 0), ("i", 1), ("i", 2), ("i", 3), ("d", .5), ("d", 1.0), ("d", 2.5), ("s", b"a"), ("s", b"b"), ("s", b""), ("s", b"v" * 40), ("i", 1 << 61)]
KEYS = [b"a", b"b", b"c", b"long" * 10]
def untok(v):
    t = v[0]
    if t == "n": return ("n",)
    if t == "i": return ("i", int(bytes(v[1])))
    if t == "d": return ("d", struct.unpack(">d", bytes.fromhex(v[1]))[0])
    if t == "s": return ("s", bytes(v[1]))
    return ("r", v[1])
def unfold(d, v):
    if v[0] != "r": return untok(v) if v[0] != "d" else ("D", repr(untok(v)[1]).encode())
    h = d.heap[v[1]]
    if h["k"] == "a": return ("a", [unfold(d, x) for x in h["f"]])
    if h["k"] == "o": return ("o", [(bytes(d.heap[x[1]]["f"][1][1]), unfold(d, d.heap[x[1]]["f"][2])) for x in h["f"]])
    return ("n",)
def arg(d, R):
    """a pair to ask for: usually one that is there"""
    pairs = [h for h in d.heap.values() if h["k"] == "r" and len(h["f"]) == 3 and not h["par"] and h["f"][1][0] == "s"]
    if pairs and R.random() < .8:
        h = R.choice(pairs); key = untok(h["f"][1]); v = h["f"][2]
        for _ in range(2):
            if v[0] == "r" and d.heap[v[1]]["k"] == "a" and d.heap[v[1]]["f"] and R.random() < .6: v = R.choice(d.heap[v[1]]["f"])
        if v[0] == "r":
            u = unfold(d, v)
            if u[0] == "n": return (key, ("n",))
            if R.random() < .2 and u[0] == "a": u = ("a", u[1][:-1])
            return (key, ("r", d.parse(wtext(R, u, False), "param")))
        return (key, untok(v) if R.random() < .9 else R.choice(LIT))
    v = R.choice(LIT)
    if R.random() < .15: v = ("r", d.parse(wtext(R, rdoc(R, 3, False), False), "param"))
    return (("s", R.choice(KEYS)), v)
BOOLS = [b"[true]", b'{"a":false}', b"true"]
def h_bool(d, R, n): d.fresh(); d.parse(BOOLS[n])
def h_hist(d, R, dele=False):
    d.fresh(); P_SET, P_DEL, P_OTHER = (.4, .62, .65) if dele else (.45, .55, .58)
    IX = [(61, [1, 2]), (50, [1]), (51, [2]), (61, [2]), (51, [1]), (50, [2])]
    def maybe_index():
        x = R.choice(IX)
        if x not in [(a, b) for a, b, c in d.idx]: d.mkindex(*x)
    want = R.choice([0, 0, 1, 1, 2, 3])
    if R.random() < .5:
        for _ in range(want): maybe_index()
    for step in range(R.choice([15, 25, 40])):
        live = d.docs(); k = R.random()
        if k < .2 or not live:
            if len(d.heap) < 120: d.parse(wtext(R, rdoc(R, R.choice([2, 3, 7]), False), False), R.choice(["document"] * (2 if dele else 5) + ["fragment"]))
        elif k < .24: d.row([R.choice(LIT[:11]), ("s", R.choice(KEYS)), R.choice(LIT)] + [("n",)] * R.choice([0, 0, 2]))
        elif k < P_SET:
            # change a value somewhere
            rec = R.choice(list(d.closure(R.choice(live)))) if R.random() < .85 else R.choice(list(d.heap)); h = d.heap[rec]
            if h["k"] == "o" or not h["f"] or h["par"]: continue
            c = 2 if h["k"] == "r" else R.randrange(len(h["f"]))
            if h["k"] == "r" and R.random() < .15: d.set(rec, 1, ("s", R.choice(KEYS))); continue
            frags = [r for r in d.heap if d.heap[r]["k"] in "ao" and not d.heap[r]["doc"] and not d.heap[r]["par"]]
            if R.random() < (.6 if dele else .35) and frags:
                t = R.choice(frags)
                if rec not in d.closure(t) and (R.random() < .3 or not any(t in d.kids(x) for x in d.heap)):
                    if d.up(rec) + d.height(t) <= (14 if R.random() < .95 else 16): d.set(rec, c, ("r", t))
            else: d.set(rec, c, R.choice(LIT))
        elif k < P_DEL: d.delete(R.choice(live))
        elif k < P_OTHER: d.delete(R.choice(list(d.heap)))
        elif k < P_OTHER + .03: d.show(R.choice(live))
        elif k < P_OTHER + .06: d.scan()
        elif k < .7: maybe_index() if len(d.idx) < want else None
        elif k < .72:
            for j, x in enumerate(d.idx):
                if x[0] < 60: d.drop(j); break
        elif k < .78: [d.index(x) for x in d.idx]
        else:
            deep = any(d.height(x) > 14 for x in live)
            if deep or d.shared(): d.find(R.choice(list(d.closure(R.choice(live))))) if not deep else None; continue
            if R.random() < .3: d.find(R.choice(list(d.heap)))
            else: d.query([arg(d, R) for _ in range(R.choice([1, 1, 2, 2, 3]))])
    for x in d.idx: d.index(x)
def h_many(d, R):
    """results of many documents: several pages, and sets large enough for the hash joins"""
    d.fresh(); d.acct = 0; V = R.choice([1, 2, 3, 8]); n = R.choice([2, 3, 4, 6, 9, 18, 19, 20, 21, 40, 62, 63, 64, 65, 126, 127, 130])
    IX = R.choice([[], [], [(61, [1, 2])], [(50, [1])], [(61, [1, 2]), (50, [1])], [(51, [2])]])
    if R.random() < .5: [d.mkindex(*x) for x in IX]
    shape = R.randrange(4); lit = lambda: b"%d" % R.randrange(V)
    def doc():
        if shape == 0: return b'{"a":%s,"b":%s}' % (lit(), lit())
        if shape == 1: return b'[' + b",".join(b'{"a":%s}' % lit() for _ in range(R.choice([1, 2, 3]))) + b']'
        if shape == 2: return b'{"a":[%s],"b":{"a":%s}}' % (b",".join(lit() for _ in range(R.choice([1, 2, 3]))), lit())
        return R.choice([b'{"a":%s}', b'{"b":%s}', b'{"b":0,"a":%s}']) % lit()
    for _ in range(n): d.parse(doc())
    if not d.idx: [d.mkindex(*x) for x in IX]
    for _ in range(R.choice([0, 2, 4, 8])):       # parts that arrive later: the pairs of one document lie apart
        if not d.docs(): break
        x = R.choice(d.docs()); p = [k for k in d.closure(x) if d.heap[k]["k"] == "r" and d.heap[k]["f"][2][0] != "r"]
        if p and d.up(p[0]) < 10:
            d.parse(doc(), "fragment"); t = max(d.heap)
            if not d.heap[t]["par"] and not d.heap[t]["doc"] and d.heap[t]["k"] in "ao": d.set(R.choice(p), 2, ("r", t))
    for _ in range(R.choice([3, 6])):
        if R.random() < .3 and d.docs(): d.delete(R.choice(d.docs()))
        if R.random() < .3: d.parse(doc())
        d.query([(("s", R.choice([b"a", b"a", b"b"])), ("i", R.randrange(V))) for _ in range(R.choice([1, 2, 2, 3]))])
    d.acct = 1
def main():
    lib, profile, seed, count, out = sys.argv[1:6]; seed, count = int(seed), int(count); R = random.Random(seed * 7919 + 29)
    d = Docs(lib, out)
    with observing(out):
        if profile == "bool": h_bool(d, R, int(sys.argv[6]))
        else:
            for _ in range(count): dict(parse=h_parse, big=h_big, hist=h_hist, many=h_many, dele=lambda d, R: h_hist(d, R, True))[profile](d, R)
    d.close()
if __name__ == "__main__": main()
