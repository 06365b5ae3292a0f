#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the implemented checks and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from wgv.checks import CHECKS
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
TRACE = "TLA+ specification; TLC validates recorded histories of the real library against it"
NOTE = {}
def note(i, technique, text, level="model_checking"): NOTE[i] = (technique, text, level)
COMMON = (" Trusted: the C shim that reads internal structures (harness/shim.c), the ctypes driver and its value table "
          "(its order keys are re-checked by the specification), TLC. Histories are sampled (seeded), not exhaustive; every call and answer in them is decided by the specification.")
note("S01", TRACE + " (Store.tla)", "Generated histories of create/delete/set/get over all lengths and types; every answer and full snapshots checked." + COMMON)
note("S02", TRACE + " (Store.tla)", "Every scan in the histories must return exactly the live set; includes growth over several sub-areas and holes." + COMMON)
note("V01", TRACE + " (Store.tla values)", "Encode/decode round trips over type boundary values, refusals out of range, lengths and copying decoders with every buffer size around the needed one and canaries on both sides, interning (equal values, same object)." + COMMON)
note("V02", TRACE + " (Store.tla ownership)", "Owner counts and the set of stored long values are derived from the abstract state and compared with the string table." + COMMON)
note("B01", TRACE + " (Store.tla parents)", "Parents() of the abstract state decides parent enumeration and deletion." + COMMON)
note("C01", TRACE + " (Cmp operator)", "The comparison is defined in TLA+ (a total preorder); every compared pair must agree." + COMMON)
note("I01", TRACE + " (Store.tla, TTreeShape.tla)", "After every few operations the whole tree is dumped; TTreeShape decides order, balance, bounds, links and Store decides the contents." + COMMON)
note("I02", TRACE + " (Store.tla)", "Whole hash index contents and every search checked, including colliding keys." + COMMON)
note("I03", TRACE + " (Store.tla catalogue)", "Create, drop, lookup, list and template answers checked against the abstract catalogue." + COMMON)
note("Q01", TRACE + " (Store.tla queries)", "Rows of every query checked against the satisfying set of the abstract state, over index configurations." + COMMON)
note("Q02", TRACE + " (Store.tla queries)", "Open prefetched queries are part of the state; every fetch checked, with interleaved writes and row limits." + COMMON)
note("Q03", TRACE + " (Store.tla queries)", "Walks with wg_find_record* must return exactly the satisfying records once." + COMMON)
if os.path.exists(V + "/bin/notes_more.py"): exec(open(V + "/bin/notes_more.py").read())
m = dict(version=1, setup_cmd="python3 -m wgv.setup", checks=[], not_applicable=[],
         notes="No hooks: the checks compile the sources of /repo themselves (wgv/build.py) together with harness/*.c, out of tree in /verif/.build.")
for i in ids:
    if i in CHECKS:
        t, n, lv = NOTE[i]
        m["checks"].append(dict(property=i, quick_cmd="bin/check " + i, thorough_cmd="bin/check %s --thorough" % i, evidence_file="evidence/%s.json" % i,
                                technique=t, level=lv, level_note=n))
    else: m["not_applicable"].append(dict(property=i, reason="Not built yet: no check is claimed at this commit."))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks;", len(m["not_applicable"]), "not claimed:", [x["property"] for x in m["not_applicable"]])
