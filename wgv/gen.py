"""Behaviours generated by TLC: every transition of a model, as the shortest history that takes it."""
import json, os, re
from . import tlc
def histories(module, cfg, workers=8, heap="4g", timeout=300, env=None, prune=True):
    r = tlc.run_tlc(module, cfg, workers=workers, heap=heap, timeout=timeout, env=env)
    if not r.ok: raise RuntimeError("TLC %s/%s rc=%d\n%s" % (module, cfg, r.rc, r.out[-2000:]))
    hs = set()
    for m in re.finditer(r'<<"HIST", "((?:[^"\\]|\\.)*)">>', r.out):
        h = json.loads(json.loads('"' + m.group(1) + '"'))
        hs.add(tuple(json.dumps(x, sort_keys=True) for x in h))
    if prune:
        pre = {h[:-1] for h in hs}
        hs = {h for h in hs if h not in pre}
    return r, [[json.loads(x) for x in h] for h in sorted(hs)]
