"""Thin wrapper around TLC."""
import os
import re
import shutil
import subprocess
import tempfile
import time

from .env import SPECS, scratch

CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(RuntimeError):
    """TLC could not do its job (machinery failure, not a verdict)."""


class TlcResult:
    def __init__(self, out, rc, wall):
        self.out = out
        self.rc = rc
        self.wall = wall
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.complete = "Model checking completed. No error has been found." in out
        self.finished = bool(m)

    def printed(self, tag):
        """Strings printed by PrintT("tag|...")."""
        res = []
        for line in self.out.splitlines():
            if line.startswith('"' + tag + "|") and line.endswith('"'):
                s = line[1:-1]
                s = s.replace('\\"', '"').replace("\\\\", "\\")
                res.append(s[len(tag) + 1 :])
        return res


def run(module, cfg, env=None, workers=8, timeout=600, xmx="6g", extra=(), deadlock=False):
    meta = tempfile.mkdtemp(prefix="tlc_", dir=scratch())
    if not os.path.isabs(cfg):
        cfg = os.path.join(SPECS, cfg)
    cmd = [
        "java", "-XX:+UseParallelGC", f"-Xmx{xmx}", "-Xss64m",
        "-XX:TieredStopAtLevel=4",
        f"-Djava.io.tmpdir={meta}",
        "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
        "-workers", str(workers), "-config", cfg,
    ]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(extra)
    cmd.append(module + ".tla")
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired as x:
        raise TlcError(f"TLC timeout after {timeout}s on {module}") from x
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(p.stdout, p.returncode, time.time() - t0)
