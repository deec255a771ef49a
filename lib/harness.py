"""Build the harness and the litcheck binary from /repo's working tree, and run cases in them."""
import json, os, subprocess, sys, threading, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
HBIN = os.path.join(TARGET, "debug", "vharness")
LBIN = os.path.join(TARGET, "debug", "litcheck")


class ToolError(Exception):
    """Something other than the code under test went wrong: neither pass nor violation."""


# Held while a program starts, and while a program is written: a file which is open for writing in a
# process about to start another cannot be executed (ETXTBSY)
STARTING = threading.Lock()


def spawn(*a, **k):
    with STARTING:
        return subprocess.Popen(*a, **k)


def cargo_env():
    e = dict(os.environ)
    e["PATH"] = os.path.expanduser("~/.cargo/bin") + ":" + e.get("PATH", "")
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             RUSTC_WRAPPER="", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
             CARGO_TARGET_DIR=TARGET)
    for k in ("FILECHECK_OPTS", "LITCHECK_TRACE", "LITCHECK_TRACE_TIMING", "LIT_FILTER",
              "LIT_FILTER_OUT", "RUST_BACKTRACE", "RUSTFLAGS"):
        e.pop(k, None)
    return e


def run_env():
    e = cargo_env()
    for k in list(e):
        if k.startswith("CARGO_"):
            del e[k]
    e["NO_COLOR"] = "1"
    return e


def build(binary=False):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = os.path.join(VERIF, "harness")
        cmds = [["cargo", "build", "--offline", "--locked", "--manifest-path", h + "/Cargo.toml"]]
        if binary:
            cmds.append(["cargo", "build", "--offline", "--locked", "-p", "litcheck",
                         "--manifest-path", REPO + "/Cargo.toml"])
        for c in cmds:
            p = subprocess.run(c, env=cargo_env(), cwd=BUILD, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise ToolError("build failed: %s\n%s" % (" ".join(c), p.stdout[-4000:]))


def _feed(mode, cases, out, case_secs, cwd, env):
    """Run cases (list of (pos, case)) in one harness process after another until all are answered."""
    todo = list(cases)
    crashes, hangs = 0, 0
    while todo:
        if crashes > 40 or hangs > 2:      # enough has been seen
            for pos, c in todo:
                out[pos] = {"id": c.get("id"), "verdict": "crash", "msg": "not run: too many before it crashed or hung"}
            return
        e = run_env()
        e["VH_CASE_SECS"] = str(case_secs)
        e.update(env or {})
        p = spawn([HBIN, mode], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                  stderr=subprocess.DEVNULL, env=e, cwd=cwd)

        def pump(items=tuple(todo)):
            try:
                for _, c in items:
                    p.stdin.write(json.dumps(c).encode() + b"\n")
                p.stdin.close()
            except (BrokenPipeError, OSError):
                pass
        t = threading.Thread(target=pump, daemon=True)
        t.start()
        n = 0
        for line in p.stdout:
            if not line.endswith(b"\n"):
                break
            out[todo[n][0]] = json.loads(line)
            n += 1
        rc = p.wait()
        t.join()
        todo = todo[n:]
        if todo:
            if rc == 0:
                raise ToolError("harness stopped early in mode " + mode)
            if rc == 101 and n == 0 and not os.path.exists(HBIN):
                raise ToolError("harness missing")
            kind = "hang" if rc == 86 else "crash"
            crashes, hangs = crashes + 1, hangs + (kind == "hang")
            pos, c = todo.pop(0)
            out[pos] = {"id": c.get("id"), "verdict": kind, "msg": "harness process ended with %s" % rc}


def run(mode, cases, jobs=8, case_secs=20, cwd=None, env=None):
    out = [None] * len(cases)
    jobs = max(1, min(jobs, len(cases)))
    parts = [[(i, cases[i]) for i in range(k, len(cases), jobs)] for k in range(jobs)]
    errs = []

    def go(part):
        try:
            _feed(mode, part, out, case_secs, cwd, env)
        except Exception as ex:  # reported below
            errs.append(ex)
    ts = [threading.Thread(target=go, args=(p,)) for p in parts]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return out


if __name__ == "__main__":
    build(binary=True)
