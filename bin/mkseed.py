#!/usr/bin/env python3
"""bin/mkseed.py SPEC.py [ID...]: writes seeded/<id>/{patch.diff,demo.sh,demo.c,meta.json} from a list SEEDS of dicts
(id, prop, edits=[(file, old, new[, nth])], needs, breaks, demo=C source of main(), or sh=shell)."""
import json, os, runpy, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seeds = runpy.run_path(sys.argv[1])["SEEDS"]
PRE = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <math.h>
#include <sys/wait.h>
#include "config.h"
#include "dballoc.h"
#include "dbdata.h"
#include "dbindex.h"
#include "dbquery.h"
#include "dbcompare.h"
#include "dblock.h"
#include "dbjson.h"
#include "dbschema.h"
#include "dbmem.h"
#include "dbutil.h"
#include "dbdump.h"
#include "dblog.h"
#define FAIL(...) do { printf("FAIL: "); printf(__VA_ARGS__); printf("\n"); exit(1); } while(0)
#define OK(c) do { if(!(c)) FAIL("%s (line %d)", #c, __LINE__); } while(0)
'''
SH = r'''#!/bin/sh
# exit 0 if the property holds in this demonstration
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
gcc -g -O1 -w -fcommon -I"$R/_build/main" -I"$R/_build/main/Db" -I"$R/Db" -I"$R" "$D/demo.c" "$R/_build/main/Main/.libs/libwgdb.a" -lm -lpthread -o "$T/demo" || exit 2
cd "$T" && timeout 120 ./demo 2>err.txt
rc=$?
[ $rc = 0 ] || { echo "demo rc=$rc"; tail -3 err.txt; }
exit $rc
'''
want = sys.argv[2:]
T = tempfile.mkdtemp(); subprocess.run(["git", "clone", "-q", "/repo", T + "/r"], check=True)
for s in seeds:
    if want and s["id"] not in want: continue
    for e in s["edits"]:
        p = T + "/r/" + e[0]; t = open(p, encoding="latin1", newline="").read()
        n = t.count(e[1])
        k = e[3] if len(e) > 3 else None
        if n == 0 or (n > 1 and k is None): print(s["id"], "edit matches", n, "times:", e[1][:60]); break
        if k is None: t = t.replace(e[1], e[2])
        else:
            parts = t.split(e[1]); t = e[1].join(parts[:k + 1]) + e[2] + e[1].join(parts[k + 1:])
        open(p, "w", encoding="latin1", newline="").write(t)
    else:
        d = os.path.join(V, "seeded", s["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        diff = subprocess.run(["git", "-C", T + "/r", "diff"], capture_output=True).stdout
        open(d + "/patch.diff", "wb").write(diff)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        open(d + "/demo.sh", "w").write(s.get("sh", SH)); os.chmod(d + "/demo.sh", 0o755)
        if "demo" in s: open(d + "/demo.c", "w").write(PRE + s["demo"])
        for f, c in s.get("files", {}).items(): open(os.path.join(d, f), "w").write(c)
    subprocess.run(["git", "-C", T + "/r", "checkout", "-q", "."], check=True)
shutil.rmtree(T)
