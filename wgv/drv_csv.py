"""Tables written to CSV and read back, and texts parsed into values, for CsvTrace.tla.  profile: table | text | parse"""
import ctypes as C, json, os, random, re, struct, sys
from .api import *
DEC = re.compile(rb"-?\d[\d]*\.\d*\Z")
LIBC = C.CDLL(None)
def bits(d): return struct.pack(">d", d).hex()
class Csv:
    def __init__(self, lib, out):
        self.L = Lib(lib); self.f = open(os.path.join(out, "trace.ndjson"), "w", buffering=1 << 16); self.out = out; self.nev = 0; self.ops = {}; self.db = None
    def ev(self, op, **kw):
        kw["op"] = op; self.f.write(json.dumps(kw, separators=(",", ":")) + "\n"); self.nev += 1; self.ops[op] = self.ops.get(op, 0) + 1
    def close(self):
        json.dump(dict(events=self.nev, ops=self.ops), open(os.path.join(self.out, "meta.json"), "w"))
        json.dump({}, open(os.path.join(self.out, "vals.json"), "w")); self.f.close()
    def used(self, a):
        x = self.L.arr(self.L.vh_subareas, self.db, a); n = self.L.vh_objlength(self.db, a); f = self.L.arr(self.L.vh_fixfree, self.db, a)
        return -1 if f is None else sum(x[k + 1] // n for k in range(0, len(x), 4)) - len(f)
    def fresh(self):
        if self.db: self.L.delete_local_database(self.db)
        self.db = self.L.attach_local_database(3000000); self.D = Db(self.L, self.db)
        self.base = self.used(6), self.used(4); self.ev("fresh")
    def owned(self): return dict(dw=self.used(6) - self.base[0], sh=self.used(4) - self.base[1])
    def val(self, e):
        v = self.D.decode(e); t = v[0]
        if t == 'n': return ["n"]
        if t == 'i': return ["i", list(b"%d" % v[1])]
        if t == 'd': return ["d", bits(self.L.decode_double(self.db, e))]
        if t == 's' and v[2] is None: return ["s", list(v[1])]
        if t == 'x': return ["x", list(v[1])]
        if t == 'u': return ["u", list(v[1]), list(v[2] or b"")]
        if t == 'b' or t == 'r' or t == 'v': return ["o"]
        if t in 'cDTf': return [t, v[1]]
        return ["?"]
    def rows(self):
        L, db = self.L, self.db; out = []; p = L.get_first_record(db)
        while p and len(out) < 100000:
            out.append([self.val(L.get_field(db, p, k)) for k in range(L.get_record_len(db, p))]); p = L.get_next_record(db, p)
        return out
    def state(self): return dict(all=self.rows(), ordered=int(len([s for s in self.L.arr(self.L.vh_subareas, self.db, 0)]) // 4 == 1))
    def fill(self, rows):
        L, db = self.L, self.db; new = []
        for r in rows:
            p = L.create_record(db, len(r)); new.append(p)
            for k, v in enumerate(r):
                e = self.D.encode(v, ptr=p if v[0] == 'r' else None) if v[0] != 'i' else L.encode_int(db, v[1])
                assert e != ILLEGAL, v
                assert L.set_field(db, p, k, e) == 0
        rr = [[self.val(L.get_field(db, p, k)) for k in range(L.get_record_len(db, p))] for p in new]
        want = [[tval(v) for v in r] for r in rows]
        assert rr == want, (rr, want)
        self.ev("fill", rows=rr, **self.state())
    def nums(self, s):
        """every decimal among the unquoted fields (over-approximated) with its correctly rounded value"""
        out = {}
        for f in set(re.split(rb"[,\r\n]", s)) | set(re.split(rb"[,\n]", s.replace(b"\r", b""))):
            if DEC.match(f): x = float(f); out[f] = "inf" if x in (float("inf"), -float("inf")) else bits(x)
        return [[list(k), v] for k, v in sorted(out.items())]
    def path(self): return os.path.join(self.out, "f.csv").encode()
    def export(self):
        self.L.export_db_csv(self.db, self.path()); s = open(self.path(), "rb").read()
        self.ev("export", s=list(s), num=self.nums(s), **self.state()); return s
    def imp(self, s, op="import"):
        open(self.path(), "wb").write(s)
        stale()
        r = self.L.import_db_csv(self.db, self.path())
        kw = dict(num=self.nums(s), r=r, **self.state()); kw.update(self.owned())
        if op == "back": self.ev("back", **kw)
        else: self.ev(op, s=list(s), **kw)
    def parse(self, s):
        if RND.random() < .3: stale()
        e = self.L.parse_and_encode(self.db, s); v = self.val(e) if e != ILLEGAL else ["?"]
        if e != ILLEGAL: self.L.free_encoded(self.db, e)
        e = self.L.parse_and_encode_param(self.db, s); p = self.val(e) if e != ILLEGAL else ["?"]
        if e != ILLEGAL: self.L.free_query_param(self.db, e)
        self.ev("parse", s=list(s), num=self.nums(s), v=v, p=p)
def stale():
    """leave an error number behind"""
    LIBC.strtol(b"99999999999999999999999", None, 10)
def tval(v):
    t = v[0]
    if t == 'n': return ["n"]
    if t == 'i': return ["i", list(b"%d" % v[1])]
    if t == 'd': return ["d", struct.pack(">Q", v[1]).hex()]
    if t == 's': return ["s", list(v[1])]
    if t == 'x': return ["x", list(v[1])]
    if t == 'u': return ["u", list(v[1]), list(v[2] or b"")]
    if t in 'brv': return ["o"]
    return [t, v[1]]
RND = random.Random(0)
PIECES = [b'"', b",", b"\n", b"\r", b"\r\n", b'""', b"a", b" ", b";", b"'", b"0", b"1", b"-", b".", b"\xff", b"\xc3\xa4", b"\t", b"\\", b":", b"abc"]
def rtext(R, m=12): return b"".join(R.choice(PIECES) for _ in range(R.randint(0, m)))
def rnumtext(R):
    k = R.randrange(12)
    if k == 0: return b"%d" % R.randint(-10**R.randint(1, 25), 10**R.randint(1, 25))
    if k == 1: return b"%d" % (R.choice([2**31, 2**32, 2**60, 2**63, -2**63, 2**61]) + R.randint(-2, 2))
    if k == 2: return b"0" * R.randint(0, 30) + b"%d" % R.randint(0, 999)
    if k == 3: return b"%.*f" % (R.randint(0, 30), R.uniform(-1e6, 1e6))
    if k == 4: return b"0." + b"0" * R.choice([1, 5, 40, 77, 78, 90, 200, 306, 310, 320, 340]) + b"%d" % R.randint(1, 10**12)
    if k == 5: return b"%d" % R.randint(1, 9) + b"%d" % R.randint(0, 9) * R.choice([70, 78, 79, 80, 81, 200, 308, 309, 330]) + R.choice([b"", b".5", b".0"])
    if k == 6: return b"-" + R.choice([b"0", b"0.0", b"00", b"", b"-1", b".5", b"1.", b"9223372036854775808", b"9223372036854775809"])
    if k == 7: return R.choice([b"1.", b".5", b"1.2.3", b"1..2", b"1e5", b"0x10", b"1,5", b"+5", b"1 ", b" 1", b"12a", b"1-2", b"--1", b"0", b"1.5f", b"5.0e3"])
    if k == 8: return b"%d.%d" % (R.randint(0, 99), R.randint(0, 99))
    if k == 9: return b"1.7976931348623157" + b"0" * 292 + R.choice([b".0", b"0.0", b"9.9", b""])
    if k == 10: return repr(R.uniform(-1, 1)).encode()
    return b"%d" % R.randint(-100, 100)
def rdatetext(R):
    y, m, d = R.choice([0, 1, 4, 1900, 2000, 2023, 2024, 9999, R.randint(0, 9999)]), R.choice([0, 1, 2, 2, 12, 13, R.randint(1, 12)]), R.choice([0, 1, 28, 29, 30, 31, 32, R.randint(1, 28)])
    s = b"%04d-%02d-%02d" % (y, m, d)
    if R.random() < .4:
        h = (R.choice([0, 23, 24, 25, R.randint(0, 23)]), R.choice([0, 59, 60, R.randint(0, 59)]), R.choice([0, 59, 60, R.randint(0, 59)]))
        s = b"%02d:%02d:%02d" % h + R.choice([b"", b".%d" % R.randint(0, 9), b".%02d" % R.randint(0, 99), b".%04d" % R.randint(0, 9999), b".", b".x"])
    k = R.randrange(8)
    if k == 0: s += R.choice([b"x", b" ", b"1", b".", b"-1", b"T10:00:00", b" draft"])
    elif k == 1: i = R.randrange(len(s)); s = s[:i] + s[i + 1:]
    elif k == 2: i = R.randrange(len(s)); s = s[:i] + R.choice([b"a", b" ", b"-", b":", b"7"]) + s[i + 1:]
    elif k == 3: s = b"%d-%d-%d" % (y, m, d)
    return s
def value(R, kinds):
    t = R.choice(kinds)
    if t == 'n': return ('n',)
    if t == 'i': return ('i', R.choice([0, 1, -1, R.randint(-1000, 1000), 2**31, 2**31 - 1, -2**31 - 1, 2**32 + 5, 2**60, 2**60 - 1, -2**60, -2**60 - 1, 2**63 - 1, -2**63, R.randint(-2**63, 2**63 - 1)]))
    if t == 'd':
        while 1:
            k = R.randrange(6)
            b = struct.unpack(">Q", struct.pack(">d", R.choice([0.0, -0.0, 1.0, -2.5, 0.1, 1 / 3, 1e-7, 123456.789, 1e22, 1e300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308]) if k < 2 else
                              R.uniform(-1000, 1000) if k < 4 else round(R.uniform(-100, 100), R.randint(0, 8)) if k == 4 else 1.0))[0]
            if k == 5: b = R.getrandbits(64)
            if b >> 52 & 0x7ff != 0x7ff: return ('d', b)
    if t == 's':
        k = R.randrange(10)
        if k < 4: return ('s', rtext(R), None)
        if k == 4: return ('s', rnumtext(R), None)
        if k == 5: return ('s', rdatetext(R), None)
        if k == 6: return ('s', b"", None)
        if k == 7: return ('s', R.choice([b"x", b'"', b'x"', b","]) * R.choice([31, 32, 33, 100, 500]), None)
        return ('s', b"".join(bytes([R.randint(1, 255)]) for _ in range(R.randint(1, 20))), None)
    if t == 'D': return ('D', R.choice([1, 59, 60, 365, 366, 719163, 3652059, R.randint(1, 3652059)]))
    if t == 'L': return ('D', R.randint(3652060, 8323140))
    if t == 'T': return ('T', R.choice([0, 1, 99, 100, 8639999, 8640000, R.randint(0, 8640000)]))
    if t == 'f': return ('f', R.randint(-8000000, 7999999))
    if t == 'c': return ('c', R.choice([44, 34, 10, 13, 65, 48, 255, R.randint(1, 255)]))
    if t == 'u': return ('u', R.choice([b"foo", b"a,b", b'q"', rtext(R) or b"x"]), R.choice([None, b"http://x/", b"urn:", b'p"']))
    if t == 'x': return ('x', rtext(R) or b"x", b"xsd:t")
    if t == 'b': return ('b', b"blob", b"type")
    if t == 'v': return ('v', 3)
    return ('r',)
def rows(R, kinds, small=False):
    return [[value(R, kinds) for _ in range(R.choice([1, 1, 2, 3, 5, 9, 10, 11, 21]) if not small else R.randint(1, 4))] for _ in range(R.choice([1, 2, 3, 6]))]
def quote(s): return b'"' + s.replace(b'"', b'""') + b'"'
def textfile(R, c):
    """a well-formed CSV text of a random other program"""
    nl = R.choice([b"\n", b"\r\n"]); out = []
    for _ in range(R.choice([0, 1, 2, 4, 8])):
        if R.random() < .15: out.append(b""); continue
        row = []
        for _ in range(R.choice([1, 2, 3, 4, 9, 10, 11, 12, 20, 25])):
            k = R.randrange(8)
            if k == 0: row.append(b"")
            elif k < 3: row.append(rnumtext(R).replace(b",", b""))
            elif k < 5: row.append(rdatetext(R))
            elif k == 5: row.append(quote(rtext(R)))
            elif k == 6: row.append(quote(R.choice([b"", b"12", b"1.5", b"2020-01-01", b"abc"])))
            else: row.append(R.choice([b"abc", b"a b", b'a"b', b"x'", b" lead", b"\xe4", b"\xff", b"-", b"-x"]))
        out.append(b",".join(row))
    s = nl.join(out)
    if R.random() < .6: s += nl
    return s
def main():
    lib, profile, seed, count, out = sys.argv[1:6]; seed, count = int(seed), int(count); R = random.Random(seed * 7919 + 17)
    c = Csv(lib, out)
    global RND; RND = R
    for _ in range(count):
        c.fresh()
        if profile == "table":
            kinds = R.choice(["nidsDT", "nidsDT", "s", "d", "i", "DT", "idsDTLfcuxbvr", "cuL", "ns"])
            for _ in range(R.choice([1, 1, 2])): c.fill(rows(R, kinds))
            s = c.export()
            if R.random() < .3: c.imp(s)
            c.fresh(); c.imp(s, "back")
            if R.random() < .3: c.export()
        elif profile == "text":
            if R.random() < .3: c.fill(rows(R, "nidsDT", True))
            for _ in range(R.choice([1, 2])): c.imp(textfile(R, c))
            if R.random() < .5: c.export()
            if R.random() < .2: c.ev("nofile", r=c.L.import_db_csv(c.db, c.path() + b".none"), **c.state())
            if R.random() < .4:
                s = textfile(R, c); s = (s.rstrip(b"\r\n") + b"\n" if s else s) + R.choice([b"1,\"abc", b"\"a\nb", b'1.5,"text"x', b'"a"b"c",2', b'2.5,"x'])
                c.imp(s, "junk")
        else:
            for _ in range(40): c.parse(R.choice([rnumtext, rdatetext, rtext, rnumtext])(R).replace(b"\0", b""))
    c.close()
if __name__ == "__main__": main()
