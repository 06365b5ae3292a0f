#!/usr/bin/env python3
"""known_findings.txt: fixed defects (by commit subject, so that the hashes stay right) and recorded ones."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.strip().split("\n")
FIX = {
 "check field and reference validity": ("J01", "a write that was refused was already in the journal and had released the old value"),
 "decide by the old value whether": ("B01", "overwriting a reference with a plain value left the old parent link when the new value was of another kind"),
 "keep every index entry once": ("I01", "changing a referenced or raw record duplicated or lost its index entries"),
 "wg_get_next_parent() loops": ("B01", "a parent with two links to one child made parent enumeration endless"),
 "a refused wg_drop_index": ("I03", "a refused drop of a hash index removed it from the catalogue"),
 "wg_get_all_indexes() counted": ("I03", "multi-column indexes were listed once per column"),
 "creating a multi-column hash index read past": ("I02", "records without the last column were entered with data read past their end"),
 "refuse invalid index types": ("I03", "invalid column or type accepted or refused only after partial creation"),
 "keep index templates out": ("Q01", "template match records were returned by queries and became data after replay"),
 "finish building a query": ("Q01", "a query with an empty index range returned garbage"),
 "x > v and x < v returned": ("Q01", "strict bounds returned excluded rows when duplicates span several T-tree nodes"),
 "wg_add_int_atomic_field()": ("L04", "sum truncated to int"),
 "order NaN consistently": ("C01", "NaN was neither less, equal nor greater consistently"),
 "hash indexes distinguished integers": ("I02", "integers equal in the low 32 bits were one key"),
 "storing a blob in a hash-indexed": ("I02", "a blob in a hash-indexed field crashed"),
 "hash index keys of different blobs": ("I02", "different blobs had the same key"),
}
FIX.update(eval(open(V + "/notes/fixes_more.py").read()) if os.path.exists(V + "/notes/fixes_more.py") else {})
out = []
for l in reversed(log):
    h, _, s = l.partition(" ")
    if not s.startswith("fix:"): continue
    m = [k for k in FIX if s[5:].startswith(k)]
    if len(m) != 1: print("no entry for", l); continue
    out.append("fixed: property=%s %s %s" % (FIX[m[0]][0], h, FIX[m[0]][1]))
KN = eval(open(V + "/notes/known.py").read()) if os.path.exists(V + "/notes/known.py") else []
for p, k, t in KN: out.append("known: property=%s key=%s %s" % (p, k, t))
open(V + "/known_findings.txt", "w").write("\n".join(out) + "\n")
print(len(out), "entries")
