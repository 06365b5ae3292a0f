"""Conversions of dates and times for CalTrace.tla.
profile days: every day of COUNT years from a year derived from SEED (args: number of years between the jobs); secs: the same for seconds
profile edge: single conversions of existing and nonexistent dates and times, text in both directions, the clock"""
import calendar, ctypes as C, json, os, random, sys, time
from .api import *
I4 = C.c_int * 4
def days(y, m): return [31, 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
LASTY = 22788
def num(y, m, d): return (y - 1) * 365 + (y - 1) // 4 - (y - 1) // 100 + (y - 1) // 400 + sum(days(y, k) for k in range(1, m)) + d
class Cal:
    def __init__(self, lib, out):
        self.L = Lib(lib); self.f = open(os.path.join(out, "trace.ndjson"), "w", buffering=1 << 16); self.out = out; self.nev = 0; self.ops = {}
        self.db = self.L.attach_local_database(400000); self.v = I4(); self.p = [C.addressof(self.v) + 4 * k for k in range(4)]
        self.buf = C.create_string_buffer(64)
    def ev(self, op, **kw):
        kw["op"] = op; self.f.write(json.dumps(kw, separators=(",", ":")) + "\n"); self.nev += 1; self.ops[op] = self.ops.get(op, 0) + 1
    def close(self):
        json.dump(dict(events=self.nev, ops=self.ops), open(os.path.join(self.out, "meta.json"), "w"))
        json.dump({}, open(os.path.join(self.out, "vals.json"), "w")); self.f.close()
    def ymd(self, n): self.L.date_to_ymd(self.db, n, *self.p[:3]); return self.v[0:3]
    def hms(self, t): self.L.time_to_hms(self.db, t, *self.p); return self.v[0:4]
    def sd(self, n):
        e = self.L.encode_date(self.db, n); return self.L.decode_date(self.db, e) if e != ILLEGAL else -2
    def st(self, t):
        e = self.L.encode_time(self.db, t); return self.L.decode_time(self.db, e) if e != ILLEGAL else -2
    def month(self, y, m):
        L, db = self.L, self.db; D = days(y, m); a = num(y, m, 1)
        self.ev("month", y=y, m=m, enc=[L.ymd_to_date(db, y, m, d) for d in range(34)], dec=[self.ymd(a + k) + [self.sd(a + k)] for k in range(D + 1)])
    def second(self, h, mi, s):
        L, db = self.L, self.db; a = ((h * 60 + mi) * 60 + s) * 100
        self.ev("second", h=h, mi=mi, s=s, enc=[L.hms_to_time(db, h, mi, s, p) for p in range(-1, 102)], dec=[self.hms(a + k) + [self.st(a + k)] for k in range(101)])
    def iso(self, x):
        d = num(*x[:3]); t = ((x[3] * 60 + x[4]) * 60 + x[5]) * 100 + x[6]
        self.buf.raw = b"\x7f" * 64
        n = self.L.strf_iso_datetime(self.db, d, t, C.addressof(self.buf))
        txt = self.buf.value
        self.ev("iso", x=x, d=d, t=t, text=txt.decode("latin1"), len=n, pd=self.L.strp_iso_date(self.db, txt), pt=self.L.strp_iso_time(self.db, txt[11:]))
    def pdate(self, s): self.ev("pdate", s=list(s), r=self.L.strp_iso_date(self.db, s))
    def ptime(self, s): self.ev("ptime", s=list(s), r=self.L.strp_iso_time(self.db, s))
def rdate(R):
    y = R.choice([1, 2, 4, 99, 100, 101, 399, 400, 401, 800, 1582, 1599, 1600, 1699, 1700, 1900, 1969, 1970, 1999, 2000, 2001, 2038, 2100, 9999]) if R.random() < .4 else R.randint(1, 9999)
    m = R.randint(1, 12); d = days(y, m)
    return [y, m, R.choice([1, d, d - 1, R.randint(1, d), R.randint(1, d)])]
def rtime(R):
    if R.random() < .05: return [24, 0, 0, 0]
    return [R.choice([0, 9, 10, 23, R.randint(0, 23)]), R.choice([0, 9, 59, R.randint(0, 59)]), R.choice([0, 9, 59, R.randint(0, 59)]), R.choice([0, 9, 10, 99, R.randint(0, 99)])]
def mutate(R, s):
    s = bytearray(s)
    for _ in range(R.choice([0, 1, 1, 2])):
        k = R.randrange(4); i = R.randrange(len(s) + 1)
        c = R.choice(b"0123456789-:. +Tx\n")
        if k == 0 and i < len(s): s[i] = c
        elif k == 1: s.insert(i, c)
        elif k == 2 and i < len(s): del s[i]
        else: s = s[:i]
    return bytes(s)
def edge(R, c):
    for _ in range(40):
        c.iso((rdate(R) if R.random() < .9 else [R.choice([10000, LASTY, R.randint(10000, LASTY)]), R.randint(1, 12), R.randint(1, 28)]) + rtime(R))
    BIG = [-2**31, -2**31 + 1, 2**31 - 1, -1, 0, -4, 5881580, 11759221, 100000, 8323200, 65536, 1 << 24]
    for _ in range(60):
        y, m, d = rdate(R); k = R.randrange(8)
        if k == 0: d = R.choice([0, -1, 29, 30, 31, 32, 33, 255, 256, 257] + BIG)
        elif k == 1: m = R.choice([0, -1, 13, 14, 255, 257, 12 + 256] + BIG)
        elif k == 2: y = R.choice([0, -1, -y, LASTY, LASTY + 1] + BIG)
        elif k == 3: m = 2; d = R.choice([28, 29, 30])
        elif k == 4: y, m, d = R.choice(BIG), R.choice(BIG), R.choice(BIG)
        elif k == 5: d = days(y, m) + R.choice([0, 1])
        c.ev("ymd", y=y, m=m, d=d, r=c.L.ymd_to_date(c.db, y, m, d))
        x = rtime(R); k = R.randrange(7)
        if k < 4: x[k] = R.choice([-1, 24, 25, 59, 60, 61, 99, 100, 101] + BIG)
        elif k == 4: x[0] = 24; x[R.randint(1, 3)] = R.choice([0, 1, 59])
        elif k == 5: x = [R.choice(BIG + [0, 59596]) for _ in range(4)]
        c.ev("hms", h=x[0], mi=x[1], s=x[2], p=x[3], r=c.L.hms_to_time(c.db, *x))
    for _ in range(60):
        y, m, d = rdate(R); k = R.randrange(4)
        if k == 0: m = R.randint(0, 99)
        if k == 1: d = R.choice([0, 29, 30, 31, 32, R.randint(0, 99)])
        if k == 2: y = R.randint(0, 9999)
        s = b"%04d-%02d-%02d" % (y, m, d)
        if R.random() < .3: s = b"%d-%d-%d" % (y, m, d)
        if R.random() < .3: s += R.choice([b"T10:20:30.40", b"T", b" ", b"x", b"1", b"-01", b"Z"])
        c.pdate(mutate(R, s) if R.random() < .4 else s)
        x = rtime(R)
        if R.random() < .3: x[R.randrange(3)] = R.choice([24, 25, 59, 60, 61, 99])
        s = b"%02d:%02d:%02d" % tuple(x[:3])
        if R.random() < .2: s = b"%d:%d:%d" % tuple(x[:3])
        s += R.choice([b"", b".%02d" % x[3], b".%d" % x[3], b".%d" % R.randint(0, 9), b".%03d" % R.randint(0, 999), b".%06d" % R.randint(0, 999999), b".", b"Z", b" "])
        c.ptime(mutate(R, s) if R.random() < .4 else s)
    for s in (b"", b"-", b"a", b"2010", b"2010-", b"2010-01", b"2010-01-", b"10:20", b"10:20:", b":::", b"-1:00:00", b"2010/01/01", b"20100101"): c.pdate(s); c.ptime(s)
    os.environ["TZ"] = R.choice(["UTC0", "EST5EDT", "XXX-14", "YYY12", "ZZZ-5:30"]); time.tzset(); C.CDLL(None).tzset()
    for k, loc, f in (("date", 0, "current_utcdate"), ("date", 1, "current_localdate"), ("time", 0, "current_utctime"), ("time", 1, "current_localtime")):
        a = moment(loc, -.05); r = getattr(c.L, f)(c.db); b = moment(loc, .001)
        c.ev("now", k=k, a=a, b=b, r=r)
def moment(loc, d):
    x = time.time() + d; s = (time.localtime if loc else time.gmtime)(x)
    return [s.tm_year, s.tm_mon, s.tm_mday, ((s.tm_hour * 60 + s.tm_min) * 60 + s.tm_sec) * 100 + int(x % 1 * 100)]
def main():
    lib, profile, seed, count, out = sys.argv[1:6]; seed, count = int(seed), int(count); R = random.Random(seed * 7919 + 13)
    c = Cal(lib, out); rest = [int(x) for x in sys.argv[6:]]
    if profile == "days":
        y0, span = rest                                 # COUNT years: all of y0.. or, with span, as many runs of 12 years as fit scattered over the whole range
        runs = [(y0, count)] if not span else [(R.choice([R.randint(1, LASTY - 12), R.randint(0, 226) * 100 + 94 or 1]), 12) for _ in range(count // 12)]
        for y, n in runs:
            c.ev("start", y=y, m=1)
            for yy in range(y, min(y + n, LASTY + 1)):
                for m in range(1, 13): c.month(yy, m)
    elif profile == "secs":
        s0, span = rest
        runs = [(s0, count)] if not span else [(R.choice([R.randint(0, 86400 - 70), R.randint(1, 23) * 3600 - 35, 86400 - 70]), 70) for _ in range(count // 70)]
        for s, n in runs:
            c.ev("tstart", h=s // 3600, mi=s // 60 % 60, s=s % 60)
            for k in range(s, min(s + n, 86400)): c.second(k // 3600, k // 60 % 60, k % 60)
    else:
        for _ in range(count): edge(R, c)
    c.close()
if __name__ == "__main__": main()
