"""Worker: generates histories of one profile over the real library and records them (see store.Recorder).
usage: python3 -m wgv.drv_store LIB PROFILE SEED COUNT OUTDIR"""
import os, random, sys
from .store import *

ALL = "niiIdfcDTvssSxub"
def pick(R, d):
    """weighted choice from {name: weight}"""
    t = R.random() * sum(d.values())
    for k, w in d.items():
        t -= w
        if t <= 0: return k
    return k
def anyval(R, rec, types, pref=0.0, pool=None):
    """value id: a fresh value, one from the pool of earlier values, or a record reference"""
    if pref and rec.live and R.random() < pref: return -R.choice(sorted(rec.live))
    if pool is not None:
        if pool and R.random() < .5: return R.choice(pool)
        v = rec.id(rvalue(R, types)); pool.append(v)
        return v
    return rec.id(rvalue(R, types))
def twin(R, rec, v):
    """a value that is easily confused with v: equal text in another language or type, equal number in another type"""
    if v <= 0: return rec.id(R.choice([('i', 0), ('s', b"", None), ('d', 0), ('v', 0), ('c', 0x20)]))
    t = rec.vals[v - 1]
    if t[0] in 'sxu':
        k = R.random()
        if k < .5: return rec.id((t[0], t[1], R.choice([b"en", b"et", b"l" * 40] + ([None] if t[0] != 'x' else []))))
        if k < .7: return rec.id((R.choice("xu"), t[1], t[2] or b"en"))
        if k < .8 and t[1]: return rec.id((t[0], t[1][:-1] + bytes([t[1][-1] ^ 1 or 2]), t[2]))
        return rec.id((t[0], t[1] + b"a", t[2]))
    if t[0] == 'b': return rec.id(('b', t[1] + b"\0", t[2]) if R.random() < .5 else ('b', t[1], R.choice([b"en", b"q"])))
    if t[0] == 'd': return rec.id(('d', t[1] ^ R.choice([1 << 63, 1, 2])) if (t[1] >> 52) & 0x7ff not in (0x7ff, 0) or t[1] in (0, 1 << 63) else t)
    if t[0] == 'i' and -(1 << 31) < t[1] < (1 << 31): return rec.id(R.choice([('i', -t[1]), ('i', t[1] + (1 << 32)), ('i', t[1] + (1 << 60)), ('i', t[1]), ('d', dbits(float(t[1]))), ('v', abs(t[1]))]))
    return v
def rh(R, rec): return R.choice(sorted(rec.live))
def rcol(R, rec, h, bad=.05):
    n = rec.lens[h]
    if R.random() < bad or n == 0: return R.choice([-1, n, n + 1, n + 100])
    return R.randrange(n)

# ---- S01/S02: records hold the last value written; scan ---------------------------------------
def p_rec(R, rec):
    rec.reset()
    if R.random() < .4: special(R, rec)
    lens = R.choice([[0, 1, 2, 3], [5], [1, 4, 10, 40], [3, 200], [1, 2, 3, 4, 5, 6, 7, 8, 255, 256, 257]])
    pool = []; raw = set()
    phases = R.randint(1, 4)
    for ph in range(phases):
        W = R.choice([dict(create=5, set=6, get=2, delete=1, len=.5, scan=.3, setnew=1, typed=1, raw=.5, clear=1),
                      dict(create=1, set=6, get=2, delete=5, len=.5, scan=.4, setnew=1, typed=1, raw=.2, clear=2),
                      dict(create=3, set=1, get=1, delete=3, len=.5, scan=1, setnew=.2, typed=.2, raw=1, clear=.2)])
        for _ in range(R.choice([20, 60, 150])):
            op = pick(R, W)
            if op == "create" or not rec.live: rec.create(R.choice(lens)); continue
            if op == "scan":
                if rec.next_i > 1 and R.random() < .3:
                    if rec.idx and R.random() < .5: rec.drop(R.choice(sorted(rec.idx)))
                    else: special(R, rec)
                rec.scan(); continue
            h = rh(R, rec)
            if op == "raw":
                h = rec.create(R.choice(lens), raw=True)
                for c in range(rec.lens[h]):        # a raw record has to be filled by its creator
                    if rec.lens[h] < 20 or R.random() < .1: rec.set(h, c, anyval(R, rec, ALL, .05, pool), new=True)
                continue
            if op == "set":
                c = rcol(R, rec, h); v = anyval(R, rec, ALL, .08, pool)
                rec.set(h, c, v)
                if R.random() < .25: rec.set(h, c, twin(R, rec, v)); rec.get(h, c)
            elif op == "setnew":
                rec.set(h, rcol(R, rec, h), anyval(R, rec, ALL, .08, pool), new=True)
            elif op == "typed": rec.set_typed(h, rcol(R, rec, h), anyval(R, rec, "iiddssS", 0, pool))
            elif op == "clear": rec.set(h, rcol(R, rec, h), 0)
            elif op == "get": rec.get(h, rcol(R, rec, h))
            elif op == "len": rec.len(h)
            elif op == "delete": rec.delete(h)
        rec.snap(); rec.scan()
    if R.random() < .5:                            # delete everything, in some order, scanning as it shrinks
        hs = sorted(rec.live); k = R.random()
        if k < .3: hs.reverse()
        elif k < .6: R.shuffle(hs)
        for h in hs:
            if h in rec.live: rec.delete(h)
            if R.random() < .1: rec.scan()
        rec.scan()
        for _ in range(R.randint(1, 10)): rec.create(R.choice(lens))
        rec.scan(); rec.snap()
def special(R, rec):
    """index templates are records that are not data"""
    w = rec.id(('v', 0))
    for k in range(R.choice([0, 0, 0, 1, 2, 5])):
        t = [rec.id(('i', R.randint(0, 3))), rec.id(('i', R.randint(0, 3))) if R.random() < .5 else w] + [w] * R.randint(0, 2)
        rec.mkidx([len(t)], 50, t)
def p_scanbig(R, rec):
    """record areas that grow over several subareas, with holes"""
    rec.reset(R.choice([4000000, 16000000]))
    special(R, rec)
    n = R.choice([1, 2, 5, 13, 60, 250, 1000])
    for k in range(R.choice([100, 300, 700]) if n < 200 else R.choice([20, 60])):
        rec.create(n if R.random() < .8 else R.randint(0, 2 * n))
        if R.random() < .02: rec.scan()
    rec.scan()
    while len(rec.live) > 3 and R.random() > .002:
        rec.delete(rh(R, rec))
        if R.random() < .04: rec.scan()
        if R.random() < .2: rec.create(R.randint(0, 2 * n))
    rec.scan(); rec.snap()

# ---- V01/V02: value codec and shared values ----------------------------------------------------
def p_val(R, rec):
    rec.reset()
    for _ in range(3): rec.create(6)
    types = R.choice([ALL, "ssSxu", "iid", "NfcDTv", "b", "xu", "s", "ubx"])
    for _ in range(R.choice([60, 200])):
        v = rec.id(rvalue(R, types))
        k = R.random()
        h = rh(R, rec)
        if k < .12: rec.encfree(v)
        elif k < .25 and v > 0: rec.copies(v, R)
        elif k < .33: rec.outofrange(R)
        elif k < .8:
            c = R.randrange(6); rec.set(h, c, v); rec.get(h, c)
            if R.random() < .3:
                w = twin(R, rec, v); d = R.randrange(6); rec.set(h, d, w); rec.get(h, d); rec.get(h, c)
        elif k < .9: rec.get(h, R.randrange(6))
        else: rec.set_typed(h, R.randrange(6), v)
    rec.snap(); rec.acct()

# ---- V02: many fields sharing few values ---------------------------------------------------------
def p_chain(R, rec): p_share(R, rec, ["H"], [8, 16, 24])
def p_share(R, rec, kinds=["S", "x", "u", "b", "i", "d", "s", "xu"], sizes=[1, 2, 4, 8]):
    rec.reset()
    pool = [rec.id(rvalue(R, R.choice(kinds))) for _ in range(R.choice(sizes))]
    if R.random() < .5: pool += [twin(R, rec, v) for v in pool]
    for _ in range(R.choice([2, 5])): rec.create(R.choice([1, 3, 6]))
    for _ in range(R.choice([60, 200])):
        k = R.random()
        if k < .12 or not rec.live: rec.create(R.choice([1, 3, 6])); continue
        h = rh(R, rec); c = R.randrange(rec.lens[h])
        if k < .65: rec.set(h, c, R.choice(pool))
        elif k < .75: rec.set(h, c, 0)
        elif k < .85: rec.delete(h)
        elif k < .95: rec.encfree(R.choice(pool))
        else: rec.get(h, c)
        rec.strs()
        if R.random() < .2: rec.acct()
    rec.snap()
    for h in sorted(rec.live): rec.delete(h); rec.strs()
    rec.acct()

# ---- B01: references --------------------------------------------------------------------------------
def p_link(R, rec):
    rec.reset()
    for _ in range(R.choice([2, 3, 6, 12])): rec.create(R.choice([1, 2, 3, 5]))
    bias = R.choice([.3, .7, .95])
    for _ in range(R.choice([60, 200])):
        k = R.random()
        if k < .08 or not rec.live:
            if R.random() < .3:
                h = rec.create(R.choice([1, 2, 3]), raw=True)
                for c in range(rec.lens[h]): rec.set(h, c, anyval(R, rec, "Ins", bias), new=True)
            else: rec.create(R.choice([1, 2, 3, 5]))
            continue
        h = rh(R, rec)
        if k < .60: rec.set(h, rcol(R, rec, h, .03), anyval(R, rec, "nnIS", bias))
        elif k < .70: rec.set(h, rcol(R, rec, h, .03), 0)
        elif k < .78: rec.delete(h)
        elif k < .80: rec.set(h, rcol(R, rec, h, .03), anyval(R, rec, "nI", bias), new=True)
        else: rec.parents(rh(R, rec))
        if R.random() < .1:
            for x in sorted(rec.live): rec.parents(x)
    for x in sorted(rec.live): rec.parents(x)
    rec.snap()
    # take everything apart: clear references, then delete all
    hs = sorted(rec.live); R.shuffle(hs)
    for h in hs:
        for c in range(rec.lens[h]):
            if R.random() < .9: rec.set(h, c, 0)
        rec.delete(h) if R.random() < .5 else rec.parents(h)
    rec.acct()
    for h in sorted(rec.live): rec.delete(h)
    rec.scan(); rec.snap(); rec.acct()

# ---- I01/I02: index contents --------------------------------------------------------------------------
def keygen(R, rec, kind=None):
    """a source of key values: ascending, descending, random, few duplicates, mixed types, strings"""
    kind = kind or R.choice(["asc", "desc", "rnd", "dup", "mix", "str", "zig", "dbl", "bigint", "bigdup", "dupstr"])
    n = [0]
    def f():
        n[0] += 1; k = n[0]
        if kind == "asc": return rec.id(('i', k))
        if kind == "desc": return rec.id(('i', -k))
        if kind == "chain": return rec.id(rvalue(R, "H"))
        if kind == "rnd": return rec.id(('i', R.randint(-100, 100)))
        if kind == "dup": return rec.id(('i', R.randint(0, 3)))
        if kind == "zig": return rec.id(('i', k if k % 2 else -k))
        if kind == "str": return rec.id(('s', b"k%03d" % R.randint(0, 60) + (b"y" * 30 if R.random() < .3 else b""), None))
        if kind == "dbl": return rec.id(rvalue(R, "d"))
        if kind == "bigdup": return rec.id(R.choice([('i', (1 << 62) + R.randint(0, 5)), ('i', MINI + R.randint(0, 5)), ('d', dbits(float(R.randint(0, 3))))]))
        if kind == "dupstr": return rec.id(('s', b"k%d" % R.randint(0, 4) + b"y" * R.choice([0, 0, 35]), R.choice([None, None, b"en"])))
        if kind == "bigint": return rec.id(('i', R.choice([-1, 1]) * R.getrandbits(R.randint(1, 63))))
        return rec.id(rvalue(R, "niIdfcDTvsSxu"))
    return f
def check_idx(R, rec, p=1.0):
    for i in sorted(rec.idx):
        if R.random() < p:
            if rec.idx[i]["type"] == 50: rec.ttree(i)
            else: rec.hashidx(i)
def rtmpl(R, rec, cols, nrec):
    """a template whose indexed columns are wildcards"""
    w = rec.id(('v', 0))
    n = R.randint(1, nrec)
    t = [w if (c in cols or R.random() < .5) else rec.id(rvalue(R, "II")) for c in range(n)]
    return t
def p_idx(R, rec, types=(50,), rounds=None, pref=.0, tm=.3, snapp=.06, maxrec=120, kind=None):
    rec.reset()
    nf = R.choice([1, 2, 3, 5])
    gens = [keygen(R, rec, kind) for _ in range(nf)]
    # column 'tc' holds template material in some histories
    def mk():
        cols = [R.randrange(nf)]; typ = R.choice(types)
        if typ == 60 and R.random() < .5: cols = R.sample(range(nf), R.randint(1, nf))
        tmpl = rtmpl(R, rec, cols, nf) if R.random() < tm else None
        if tmpl is not None and all(rec.vals[v - 1][0] == 'v' for v in tmpl if v > 0) : tmpl = None
        rec.mkidx(cols, typ, tmpl)
    if R.random() < .6: mk()
    small = lambda: rec.id(rvalue(R, "I"))
    def val(c, h=None):
        if pref and rec.live and R.random() < pref: return -rh(R, rec)
        r = R.random()
        return 0 if r < .05 else small() if r < .35 and tm else gens[c]()
    for ph in range(rounds or R.choice([2, 3, 4])):
        grow = R.choice([.8, .5, .15])
        for _ in range(R.choice([30, 80, 160])):
            k = R.random()
            if not rec.live or (k < .5 and R.random() < grow and len(rec.live) < maxrec):
                h = rec.create(R.choice([nf, nf, nf, R.randint(0, nf + 1)]))
                for c in range(rec.lens[h]): rec.set(h, c, val(min(c, nf - 1)))
                continue
            h = rh(R, rec)
            if k < .5: rec.delete(h)
            elif k < .97: 
                if rec.lens[h]:
                    c = R.randrange(rec.lens[h]); rec.set(h, c, val(min(c, nf - 1)))
            elif k < .985: mk()
            elif rec.idx and k < .992: rec.drop(R.choice(sorted(rec.idx)))
            if R.random() < snapp: check_idx(R, rec)
        check_idx(R, rec)
    for h in sorted(rec.live, key=lambda _: R.random()):
        rec.delete(h)
        if R.random() < .08: check_idx(R, rec)
    check_idx(R, rec); rec.acct()
    for i in sorted(rec.idx): rec.drop(i)
    rec.acct()
def p_ttree(R, rec): p_idx(R, rec, (50,))
def p_ttreegrow(R, rec):
    """one T-tree, long monotone growth and removal runs: rotations, node splits and merges"""
    rec.reset()
    rec.mkidx([0], 50)
    kind = R.choice('iiIdsm')                 # how a key is stored: in place, in a cell of its own, shared
    def kv(k):
        t = R.choice('Ids') if kind == 'm' else kind
        return rec.id(('i', k) if t == 'i' else ('i', (1 << 61) + k) if t == 'I' else ('d', dbits(float(k))) if t == 'd' else ('s', b'key %05d' % (k + 2000) + b'z' * (40 if k % 3 else 0), None))
    n = R.choice([30, 90, 250])
    order = R.choice(["asc", "desc", "rnd", "zig", "in", "dup"])
    keys = list(range(n))
    if order == "desc": keys.reverse()
    elif order == "rnd": R.shuffle(keys)
    elif order == "zig": keys = [x for p in zip(range(n // 2), range(n - 1, n // 2 - 1, -1)) for x in p]
    elif order == "in": keys.sort(key=lambda x: (bin(x)[::-1], x))
    elif order == "dup": keys = [x // R.choice([2, 10, 50]) for x in keys]
    for j, k in enumerate(keys):
        h = rec.create(2); rec.set(h, 0, kv(k))
        if R.random() < .05: rec.ttree(1)
    rec.ttree(1)
    hs = sorted(rec.live, key=lambda h: key(rec.tok(rec.fields(h)[0])))
    o2 = R.choice(["asc", "desc", "rnd", "mid", "update"])
    if o2 == "desc": hs.reverse()
    elif o2 == "rnd": R.shuffle(hs)
    elif o2 == "mid": hs.sort(key=lambda h: abs(h - n // 2))
    for h in hs:
        if o2 == "update": rec.set(h, 0, kv(R.randint(-n, 2 * n)))
        else:
            rec.delete(h)
            if R.random() < .25:
                g = rec.create(2); rec.set(g, 0, kv(R.randint(-n, 2 * n))); rec.set(g, 1, kv(-R.randint(1, 1000)))
        if R.random() < .06: rec.ttree(1)
    rec.ttree(1)
def p_reckey(R, rec): p_idx(R, rec, (50,), pref=.35, tm=.1, snapp=.15, maxrec=14)
def p_hash(R, rec):
    # record references in fields: the record's address is the key
    p_idx(R, rec, (60,), pref=R.choice([0, 0, .1]), tm=.3, maxrec=60)
def p_hashchain(R, rec): p_idx(R, rec, (60,), tm=R.choice([0, .2]), maxrec=60, kind="chain")
def p_hashq(R, rec):
    rec.reset()
    nf = R.choice([1, 2, 3])
    cols = R.sample(range(nf), R.randint(1, nf))
    pool = [[anyval(R, rec, R.choice(["I", "i", "dS", "sxu", "cDTf", "sb", "nivI", "Z", "Z", "ZI", "H", "H"])) for _ in range(R.choice([1, 3, 6]))] for _ in range(nf)]
    if R.random() < .4:                              # split one byte string over the columns in different ways
        k = R.choice("bbs"); sep = {"b": [b"\0\x08", b"\x08", b"\0", b"\0\x05"], "s": [b"\x05", b"\x05\x05", b"\x08"]}[k]
        ss = R.choice(sep)
        def piece(a): return rec.id((R.choice(["b", "b", "s"]) if b"\0" not in a and k == "b" else k, a, R.choice([None, None, b"a"]) if k == "b" else None))
        pool = [[piece(a) for a in [b"a", b"b", b"a" + ss + b"a", b"a" + ss + b"b", b"b" + ss + b"a", b"b" + ss + b"b", b"a" + ss + b"a" + ss + b"a"]] for _ in range(nf)]
    i = rec.mkidx(cols, 60)
    for _ in range(R.choice([40, 120])):
        k = R.random()
        if k < .35 or not rec.live:
            h = rec.create(R.choice([nf, nf, max(0, nf - 1)]))
            for c in range(rec.lens[h]): rec.set(h, c, R.choice(pool[c]))
        elif k < .6:
            h = rh(R, rec)
            if rec.lens[h]:
                c = R.randrange(rec.lens[h]); rec.set(h, c, R.choice(pool[c]))
        elif k < .7: rec.delete(rh(R, rec))
        else: rec.hsearch(i, [R.choice(pool[c]) for c in sorted(cols)])
    rec.hashidx(i)

# ---- I03: index catalogue ------------------------------------------------------------------------------
def p_cat(R, rec):
    rec.reset()
    w = rec.id(('v', 0)); w2 = rec.id(('v', 7)); dead = []
    for _ in range(R.choice([0, 5, 20])):
        h = rec.create(R.choice([2, 3, 5]))
        for c in range(rec.lens[h]): rec.set(h, c, rec.id(rvalue(R, "I")))
    def spec():
        typ = R.choice([50, 50, 60, 60, 60])
        n = 1 if typ == 50 and R.random() < .95 else R.choice([1, 1, 2, 3])
        cols = [R.randrange(4) for _ in range(n)] if R.random() < .1 else R.sample(range(5), n)
        if R.random() < .04: cols[0] = R.choice([-1, 126, 127, 128, 1000])
        if R.random() < .03: typ = R.choice([0, 51, 7, 62])
        tmpl = None
        if R.random() < .5:
            tmpl = []
            for c in range(R.randint(1, 5)):
                if c in cols and R.random() < .97: tmpl.append(R.choice([w, w2]))
                else: tmpl.append(R.choice([w, w, rec.id(('i', R.randint(0, 2))), rec.id(('s', R.choice([b"a", b"q" * 40]), None)), 0]))
            if R.random() < .02 and rec.live: tmpl[-1] = -rh(R, rec)
        return cols, typ, tmpl
    known = [spec() for _ in range(R.choice([2, 5, 10]))]
    known = [(c, t, [x for x in m if x >= 0] if m is not None else None) for c, t, m in known]
    for _ in range(R.choice([30, 80])):
        k = R.random(); s = R.choice(known) if R.random() < .8 else spec()
        if k < .35: rec.mkidx(*s)
        elif k < .55 and rec.idx:
            i = R.choice(sorted(rec.idx)); rec.drop(i)
            if R.random() < .4:                        # reuse whatever was released
                for n in range(1, 6):
                    h = rec.create(n); rec.set(h, 0, rec.id(('s', R.choice([b"zz", b"q" * 40]), None)))
        elif k < .75: rec.look(*s)
        elif k < .85: rec.allidx()
        elif k < .88 and rec.idx: rec.idxtype(R.choice(sorted(rec.idx)))
        elif k < .92 and rec.idx: rec.idxtmpl(R.choice(sorted(rec.idx)))
        elif rec.live:
            h = rh(R, rec)
            if R.random() < .2: rec.delete(h)
            else: rec.set(h, R.randrange(rec.lens[h]), rec.id(rvalue(R, "I")))
        else: rec.create(3)
        if R.random() < .2: rec.allidx()
    rec.allidx(); check_idx(R, rec)
    for i in sorted(rec.idx): rec.idxtmpl(i)
    for i in sorted(rec.idx): rec.drop(i); rec.allidx()
    rec.allidx()

# ---- Q01..Q03: queries --------------------------------------------------------------------------------
CONDS = [1, 2, 4, 8, 16, 32]
def p_query(R, rec, mixed=None):
    rec.reset()
    nf = R.choice([1, 2, 3, 4])
    n = R.choice([0, 1, 5, 20, 70, 150])
    style = R.choice(["I", "I", "dup", "mix", "str", "num"]) if mixed is None else mixed
    def v():
        if style == "I": return rec.id(('i', R.randint(0, 9)))
        if style == "dup": return rec.id(('i', R.randint(0, 2)))
        if style == "str": return rec.id(('s', b"s%02d" % R.randint(0, 30), None))
        if style == "num": return rec.id(R.choice([('i', R.randint(-3, 3)), ('d', dbits(float(R.randint(-2, 2)))), ('n',), ('f', R.randint(-2, 2) * 10000)]))
        return rec.id(rvalue(R, "niIIdfcDTsSxu")) if R.random() < .5 else rec.id(('i', R.randint(0, 5)))
    def idx():
        typ = R.choice([50, 50, 50, 60]); cols = [R.randrange(nf)]
        if typ == 60: cols = R.sample(range(nf), R.randint(1, nf))
        tmpl = None
        if R.random() < .25 and nf > 1:
            w = rec.id(('v', 0))
            tmpl = [w] * nf
            c = R.randrange(nf)
            if c not in cols: tmpl[c] = v()
            else: tmpl = None
        rec.mkidx(cols, typ, tmpl)
    for _ in range(R.choice([0, 1, 2, 3])): idx()
    for _ in range(n):
        h = rec.create(R.choice([nf, nf, nf, R.randint(0, nf)]))
        for c in range(rec.lens[h]): rec.set(h, c, v())
    if R.random() < .4: idx()
    for _ in range(R.choice([8, 25])):
        k = R.random()
        if k < .15 and rec.live:
            h = rh(R, rec)
            if R.random() < .3: rec.delete(h)
            elif rec.lens[h]: rec.set(h, R.randrange(rec.lens[h]), v())
            continue
        if k < .18: idx(); continue
        if k < .2 and rec.idx: rec.drop(R.choice(sorted(rec.idx))); continue
        nc = R.choice([0, 1, 1, 2, 2, 3, 4])
        conds = [[R.randrange(nf) if R.random() < .95 else nf + 1, R.choice(CONDS), v()] for _ in range(nc)]
        if R.random() < .3 and nc >= 2: conds[1][0] = conds[0][0]       # two bounds on one column
        m = []
        mrec = None; mv = None
        w = rec.id(('v', 0))
        if R.random() < .3:
            m = [v() if R.random() < .4 else w for _ in range(R.randint(1, nf + 1))]
        elif R.random() < .15 and rec.live:
            h = rh(R, rec)
            if rec.lens[h]: mrec = rec.live[h]; mv = rec.fields(h)
        if not conds and not m and mrec is None and R.random() < .5: continue
        lim = 0 if R.random() < .7 else R.choice([1, 2, 62, 63, 64, 65, 1000])
        rec.query(conds, m, lim, R.random() < .7, mrec, mv)
    for _ in range(4):
        if not rec.live: break
        rec.find(R.randrange(nf + 1), R.choice(CONDS), v(), typed=R.random() < .5)
def p_queryrange(R, rec):
    """range conditions over one indexed column with duplicates spanning several tree nodes"""
    rec.reset()
    rec.mkidx([0], 50) if R.random() < .8 else None
    n = R.choice([7, 8, 9, 17, 30, 64, 130, 200]); D = R.choice([1, 2, 5, 20, 1000])
    for k in range(n):
        h = rec.create(2); rec.set(h, 0, rec.id(('i', R.randrange(D)))); rec.set(h, 1, rec.id(('i', k % 3)))
    if R.random() < .5:
        for h in R.sample(sorted(rec.live), n // 2): rec.delete(h)
    for _ in range(14):
        a, b = R.randint(-1, D), R.randint(-1, D)
        conds = [[0, R.choice(CONDS), rec.id(('i', a))]]
        if R.random() < .7: conds.append([0, R.choice(CONDS), rec.id(('i', R.choice([b, a, a + 1])))])
        if R.random() < .2: conds.append([R.randrange(2), R.choice(CONDS), rec.id(('i', R.randint(-1, D)))])
        if R.random() < .3: R.shuffle(conds)
        rec.query(conds, limit=0 if R.random() < .8 else R.choice([1, 5, 63, 64, 126]))
def p_find(R, rec):
    rec.reset()
    pool = [rec.id(rvalue(R, "niIIdfcDTvsSxu")) for _ in range(R.choice([3, 10, 30]))]
    for _ in range(R.choice([5, 40])):
        h = rec.create(R.choice([1, 2, 3]))
        for c in range(rec.lens[h]): rec.set(h, c, R.choice(pool) if R.random() < .93 else -rh(R, rec))
    if R.random() < .5: rec.mkidx([R.randrange(3)], R.choice([50, 60]))
    for _ in range(40):
        v = R.choice(pool) if R.random() < .9 else -rh(R, rec)
        rec.find(R.randrange(3), R.choice(CONDS), v, typed=R.random() < .6)
        if R.random() < .1:
            h = rh(R, rec); rec.set(h, R.randrange(rec.lens[h]), R.choice(pool))
def p_prefetch(R, rec):
    """several prefetched queries open at once, fetched in interleaved pieces while the data changes"""
    rec.reset()
    if R.random() < .5: rec.mkidx([0], 50)
    def v(): return rec.id(('i', R.randint(0, 5))) if R.random() < .8 else rec.id(rvalue(R, "S"))
    for k in range(R.choice([10, 62, 63, 64, 130, 200])):
        h = rec.create(2); rec.set(h, 0, v()); rec.set(h, 1, v())
    open_ = []
    for _ in range(R.choice([10, 40])):
        k = R.random()
        if k < .3 and len(open_) < 4:
            conds = [[R.randrange(2), R.choice(CONDS), v()] for _ in range(R.choice([0, 1, 2]))]
            lim = 0 if R.random() < .5 else R.choice([1, 10, 63, 64, 100])
            q = rec.qopen(conds, [], lim)
            if q: open_.append(q)
        elif k < .7 and open_:
            q = R.choice(open_); rec.qfetch(q, R.choice([1, 1, 3, 63, 64, 500]))
        elif k < .8 and open_:
            q = open_.pop(R.randrange(len(open_))); rec.qclose(q)
        else:
            h = rh(R, rec)
            if not open_ and R.random() < .5: rec.delete(h)
            elif open_ and R.random() < .5: h = rec.create(2); rec.set(h, 0, v())
            else: rec.set(h, R.randrange(2), v())
    for q in open_: rec.qfetch(q, 1000); rec.qclose(q)
    rec.snap()

# ---- C01: the order ---------------------------------------------------------------------------------------
def p_cmp(R, rec):
    rec.reset()
    vals = [rec.id(rvalue(R, R.choice(["niIdNfcDTvsSxub", "iIdN", "sS", "xu", "b", "fcDTv", "iiii", "dNdd"]))) for _ in range(R.choice([6, 20]))]
    hs = []
    shape = R.choice(["flat", "deep", "cyc", "none"])
    if shape != "none":
        for _ in range(R.choice([3, 12])):
            h = rec.create(R.choice([0, 1, 1, 2, 3])); hs.append(h)
            for c in range(rec.lens[h]):
                if shape == "flat" or len(hs) < 3 or R.random() < .3: rec.set(h, c, R.choice(vals[:4]))
                else: rec.set(h, c, -R.choice(hs if shape == "cyc" else hs[:-1]))
        if shape == "deep":                      # two equal chains of growing depth
            for base in range(2):
                prev = 0
                for d in range(R.choice([6, 7, 8, 9, 10])):
                    h = rec.create(1); rec.set(h, 0, prev if prev else vals[0]); prev = -h; hs.append(h)
    allv = [0] + vals + [-h for h in hs]
    for _ in range(R.choice([60, 150])):
        rec.cmp(R.choice(allv), R.choice(allv), R.choice([7, 7, 7, 0, 1, 2, 5]))

# ---- L04, sequential part ------------------------------------------------------------------------------
def p_atomic(R, rec):
    rec.reset()
    for _ in range(4): rec.create(4)
    if R.random() < .3: rec.mkidx([R.randrange(4)], R.choice([50, 60]))
    ints = lambda: rec.id(('i', R.choice([0, 1, -1, 5, (1 << 31) - 1, 1 << 31, (1 << 60) - 1, -(1 << 60), (1 << 60) - 5, R.randint(-50, 50), 1 << 60])))
    for _ in range(R.choice([60, 150])):
        k = R.random(); h = rh(R, rec); c = rcol(R, rec, h, .04)
        v = ints() if R.random() < .6 else anyval(R, rec, "niIdfcDTvsS", .05)
        if k < .25: rec.set(h, c, v)
        elif k < .5:
            cur = rec.fields(h)[c] if 0 <= c < rec.lens[h] else 0
            rec.upd(h, c, v, cur if R.random() < .6 else ints())
        elif k < .65: rec.aset(h, c, v)
        elif k < .92: rec.aadd(h, c, R.choice([1, -1, 7, -3, (1 << 31) - 1, -(1 << 31), R.randint(-100, 100)]))
        else: rec.get(h, c)
    rec.snap()

PROFILES = {k[2:]: v for k, v in list(globals().items()) if k.startswith("p_")}
def main(a):
    libp, prof, seed, count, out = a[0], a[1], int(a[2]), int(a[3]), a[4]
    os.makedirs(out, exist_ok=True)
    rec = Recorder(Lib(libp), out)
    with observing(out):
        for k in range(count):
            PROFILES[prof](random.Random("%s/%d/%d" % (prof, seed, k)), rec)
    rec.close()
if __name__ == "__main__": main(sys.argv[1:])
