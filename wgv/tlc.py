"""Running TLC: exhaustive model checking and trace validation."""
import os, re, subprocess, shutil, tempfile, time
from .build import scratch, VERIF
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
def classpath():
    cm = [os.path.join("/opt/veriftools/tla", f) for f in sorted(os.listdir("/opt/veriftools/tla")) if f.endswith(".jar")]
    cm.sort(key=lambda p: 0 if p.endswith("tla2tools.jar") else 1)
    return ":".join(cm)
class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.ok = rc == 0 and "Model checking completed. No error has been found" in out
        # 10/11/12/13: assumption/deadlock/safety/liveness violations; everything else is a failure of the tool or the model
        self.violated = rc in (10, 11, 12, 13)
def run_tlc(module, cfg, workers=1, heap="1g", timeout=600, env=None, extra=(), cwd=None):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m", "-XX:-UsePerfData", "-Djava.io.tmpdir=" + meta, "-cp", classpath(), "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-nowarning", "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=cwd or SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=timeout, env=dict(os.environ, **(env or {})))
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        rc, out = -1, (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
        out += "\nTIMEOUT"
    shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(rc, out, time.time() - t)
