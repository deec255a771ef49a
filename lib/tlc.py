"""Run TLC on a module of /verif/spec and collect what it prints."""
import os, re, shutil, subprocess, tempfile
from harness import VERIF, BUILD, ToolError

SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Result:
    def __init__(self):
        self.lines = []      # strings printed by PrintT
        self.states = 0      # distinct states
        self.generated = 0   # states generated = transitions taken + initial states
        self.error = None    # text of a TLC error (invariant violated, evaluation error)


def run(module, cfg=None, env=None, workers=8, heap="6g", timeout=800, extra=(), deadlock=True):
    os.makedirs(BUILD, exist_ok=True)
    meta = tempfile.mkdtemp(prefix="tlc-", dir=BUILD)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg or module + ".cfg")]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    r = Result()
    out = os.path.join(meta, "out.txt")
    try:
        with open(out, "w") as f:
            try:
                rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=meta,
                                    timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise ToolError("TLC ran out of time on " + module)
        err = []
        done = False
        with open(out, errors="replace") as f:
            for line in f:
                line = line.rstrip("\n")
                if line.startswith('"') and line.endswith('"'):
                    r.lines.append(line[1:-1].replace('\\"', '"').replace("\\\\", "\\"))
                elif line.startswith("Error:") or err:
                    err.append(line)
                m = re.match(r"(\d+) states generated, (\d+) distinct states found, 0 states left", line)
                if m:
                    r.generated, r.states = int(m.group(1)), int(m.group(2))
                    done = True
        if err:
            r.error = "\n".join(err[:60])
        elif rc != 0 or not done:
            with open(out, errors="replace") as f:
                raise ToolError("TLC failed on %s (%s):\n%s" % (module, rc, f.read()[-3000:]))
        return r
    finally:
        shutil.rmtree(meta, ignore_errors=True)
