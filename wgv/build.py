"""Builds the libraries the checks drive, from /repo's current working tree, in a scratch directory."""
import os, shutil, subprocess, tempfile, atexit, sys, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WGV_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")

_scratch = None
def scratch():
    """per-process scratch directory under /verif/.build, removed at exit"""
    global _scratch
    if _scratch is None:
        base = os.path.join(VERIF, ".build"); os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="run-", dir=base)
        pid = os.getpid()
        def clean():
            if os.getpid() == pid and not os.environ.get("WGV_KEEP"):
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
    return _scratch

CONFIG = """
#define CHECK 1
#define HAVE_64BIT_GINT 1
#define HAVE_INTTYPES_H 1
#define HAVE_LIBM 1
#define HAVE_PTHREAD 1
#define HAVE_STDINT_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRING_H 1
#define HAVE_UNISTD_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define PACKAGE "whitedb"
#define PACKAGE_NAME "WhiteDB"
#define PACKAGE_VERSION "0.8-alpha"
#define SIZEOF_PTRDIFF_T 8
#define STDC_HEADERS 1
#define USE_BACKLINKING 1
#define USE_ERROR_CALLBACK 1
#define VERSION "0.8-alpha"
#define VERSION_MAJOR 0
#define VERSION_MINOR 8
#define VERSION_REV 0
"""
FULL = dict(LOCK_PROTO=3, STRHASH_SIZE=2, TTREE_CHAINED_NODES=1, TTREE_SINGLE_COMPARE=1, USE_CHILD_DB=1,
            USE_DBLOG=1, USE_INDEX_TEMPLATE=1, DBLOG_DIR='"."')
def variant(**kw):
    d = dict(FULL)
    for k, v in kw.items():
        if v is None: d.pop(k, None)
        else: d[k] = v
    return d
VARIANTS = {
    "full": FULL,
    # the library defaults without journal, child databases (configure without options)
    "plain": variant(USE_DBLOG=None, DBLOG_DIR=None, USE_CHILD_DB=None),
    # the other T-tree implementation choices
    "ttree": variant(TTREE_CHAINED_NODES=None, TTREE_SINGLE_COMPARE=None),
    "rpspin": variant(LOCK_PROTO=1),
    "wpspin": variant(LOCK_PROTO=2),
}
DBSRC = ["dballoc","dbcompare","dbdata","dbdump","dbhash","dbindex","dbjson","dblock","dblog","dbmem","dbmpool",
         "dbquery","dbschema","dbutil"]

def stage(outdir, cfg, extra_defs=None):
    """copy the sources next to our own config.h"""
    os.makedirs(outdir, exist_ok=True)
    for d in ("Db", "json", "Reasoner", "Printer", "Parser", "Server", "Python", "Main"):
        src = os.path.join(REPO, d)
        if os.path.isdir(src):
            shutil.copytree(src, os.path.join(outdir, d), dirs_exist_ok=True,
                            ignore=shutil.ignore_patterns("*.o", "*.lo", ".libs", ".deps", "*.la"))
    with open(os.path.join(outdir, "config.h"), "w") as f:
        f.write(CONFIG)
        for k, v in dict(cfg, **(extra_defs or {})).items(): f.write("#define %s %s\n" % (k, v))

def run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, errors="replace")
    if r.returncode:
        sys.stderr.write("BUILD FAILED: %s\n%s\n%s\n" % (" ".join(cmd), r.stdout[-3000:], r.stderr[-6000:]))
        raise SystemExit(2)
    return r

def par(cmds, cwd=None):
    ps = [(c, subprocess.Popen(c, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")) for c in cmds]
    bad = 0
    for c, p in ps:
        o, _ = p.communicate()
        if p.returncode:
            bad = 1; sys.stderr.write("BUILD FAILED: %s\n%s\n" % (" ".join(c), o[-6000:]))
    if bad: raise SystemExit(2)

_built = {}
def lib(name="full", opt="-O1", extra_flags=(), defs=None, srcs_extra=("shim.c",), link=()):
    """-> path of lib<name>.so: all of Db/ and json/ plus the observation shim"""
    key = (name, opt, tuple(extra_flags), tuple(sorted((defs or {}).items())), tuple(srcs_extra))
    if key in _built: return _built[key]
    out = os.path.join(scratch(), "b-%s-%d" % (name, len(_built)))
    stage(out, VARIANTS[name], defs)
    cmds, objs = [], []
    for s in DBSRC:
        src = os.path.join(out, "Db", s + ".c")
        if not os.path.exists(src): continue
        o = os.path.join(out, s + ".o"); objs.append(o)
        cmds.append(["gcc", "-g", opt, "-fPIC", "-w", "-fcommon", "-c", src, "-o", o, "-I", os.path.join(out, "Db")] + list(extra_flags))
    o = os.path.join(out, "yajl.o"); objs.append(o)
    cmds.append(["gcc", "-g", opt, "-fPIC", "-w", "-fcommon", "-c", os.path.join(out, "json", "yajl_all.c"), "-o", o] + list(extra_flags))
    for s in srcs_extra:
        o = os.path.join(out, "x-" + s[:-2] + ".o"); objs.append(o)
        shutil.copy(os.path.join(HARN, s), os.path.join(out, "Db", "vh_" + s))
        cmds.append(["gcc", "-g", "-O1", "-fPIC", "-w", "-c", os.path.join(out, "Db", "vh_" + s), "-o", o])
    par(cmds, cwd=out)
    so = os.path.join(out, "lib%s.so" % name)
    run(["gcc", "-shared", "-o", so] + objs + list(link) + ["-lm", "-lpthread"])
    _built[key] = so
    return so
def gates():
    """the library with places to stop at (harness/gates.c)"""
    return lib("full", extra_flags=("-fsanitize-coverage=trace-pc",), srcs_extra=("shim.c", "gates.c"), link=["-Wl," + ",".join("--wrap=shm" + f for f in ("get", "at", "ctl", "dt"))])

def locks(name):
    """-> path of the executable that runs lock scenarios (harness/lockrun.c) over the locking variant 'name'"""
    key = ("locks", name)
    if key in _built: return _built[key]
    out = os.path.join(scratch(), "b-locks-%s" % name)
    stage(out, VARIANTS[name])
    cmds, objs = [], []
    for s in DBSRC + ["yajl", "lockrun"]:
        src = os.path.join(out, "json", "yajl_all.c") if s == "yajl" else os.path.join(out, "Db", s + ".c")
        if s == "lockrun": shutil.copy(os.path.join(HARN, "lockrun.c"), src)
        if not os.path.exists(src): continue
        o = os.path.join(out, s + ".o"); objs.append(o)
        cmds.append(["gcc", "-g", "-O1" if s in ("dblock", "dbdata") else "-O2", "-w", "-fcommon", "-c", src, "-o", o, "-I", os.path.join(out, "Db")]
                    + (["-fsanitize=thread"] if s in ("dblock", "dbdata") else []))
    par(cmds, cwd=out)
    exe = os.path.join(out, "lockrun")
    run(["gcc", "-o", exe] + objs + ["-lm", "-lpthread"])
    _built[key] = exe
    return exe

if __name__ == "__main__":
    import time; t = time.time()
    for v in VARIANTS: print(lib(v), time.time() - t)
