"""Lay out suites of tests in a scratch directory and run the real litcheck over them."""
import json, os, random, re, shutil, subprocess
import harness
from harness import BUILD, HBIN, LBIN, ToolError

STATUS = re.compile(r"^(UNSUPPORTED|PASS|FLAKYPASS|XFAIL|UNRESOLVED|TIMEOUT|FAIL|XPASS|EXCLUDED|SKIPPED): (.+)$")


def cps(s):
    return [ord(c) for c in s]


def toml_table(d):
    return "".join("%s = %s\n" % (json.dumps(k), json.dumps(v)) for k, v in d)


def suite_toml(name, work=None, patterns=("*.t",), features=(), subs=(), env=(), shtest=None, extra=""):
    t = "name = %s\n" % json.dumps(name)
    if work is not None:
        t += "working_dir = %s\n" % json.dumps(work)
    if patterns is not None:
        t += "patterns = %s\n" % json.dumps(list(patterns))
    if features:
        t += "available_features = %s\n" % json.dumps(list(features))
    t += extra
    if subs:
        t += "[substitutions]\n" + toml_table(subs)
    if env:
        t += "[env]\n" + toml_table(env)
    if shtest is not None:
        t += "[format.shtest]\n" + "".join("%s = %s\n" % (k, json.dumps(v)) for k, v in shtest.get("set", ()))
        if shtest.get("extra"):
            t += "[format.shtest.extra_substitutions]\n" + toml_table(shtest["extra"])
    return t


HUNG = []   # runs which did not come to an end


class World:
    """A scratch directory with a recorder, removed at the end."""

    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        # named with digits only, so that substitutions of letters leave paths alone
        while True:
            self.dir = os.path.join(os.path.realpath(BUILD), "L%d" % random.SystemRandom().randrange(10**9))
            try:
                os.mkdir(self.dir)
                break
            except FileExistsError:
                pass
        for d in ("bin", "work/log"):
            os.makedirs(os.path.join(self.dir, d))
        for n in ("r", "say"):
            os.symlink(HBIN, os.path.join(self.dir, "bin", n))
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def write(self, rel, data, mode=None):
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with harness.STARTING:
            with open(p, "wb") as f:
                f.write(data if isinstance(data, bytes) else data.encode())
            if mode:
                os.chmod(p, mode)

    def run(self, args, timeout=300, env=None, cwd=None):
        """litcheck lit ARGS: (exit code, stdout, stderr), code None when it does not come to an end."""
        e = harness.run_env()
        e["TMPDIR"] = self.path("work")
        e.update(env or {})
        if HUNG:
            timeout = min(timeout, 60)
        p = harness.spawn([LBIN, "lit"] + list(args), cwd=cwd or self.dir, env=e, stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        try:
            out, err = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            out, err = p.communicate()
            rc = None
            HUNG.append(args)
        return rc, out.decode(errors="replace"), err.decode(errors="replace")

    def records(self):
        """{test: [[word, ...], ...]} as written by the recorder"""
        res = {}
        d = self.path("work/log")
        for n in os.listdir(d):
            data = open(os.path.join(d, n), "rb").read().decode(errors="replace")
            res[n] = [r.split("\x1f") for r in data.split("\x1e")[:-1]]
        return res


def statuses(out):
    """{test name: [status, ...]} of the lines printed while tests ran"""
    res = {}
    for l in out.split("\n"):
        m = STATUS.match(l)
        if m:
            res.setdefault(m.group(2), []).append(m.group(1))
    return res


def run_tests(part):
    """Lay out the cases of gen_lit, run them, and return their answers."""
    got = [None] * len(part)
    for noexec in (False, True):
        ids = [i for i, c in enumerate(part) if c["real"]["noexec"] == noexec]
        if not ids:
            continue
        groups = {}
        for i in ids:
            groups.setdefault(part[i]["suite"].key(), []).append(i)
        with World() as w:
            names = {}
            for g, (k, members) in enumerate(groups.items()):
                s = part[members[0]]["suite"]
                w.write("g%d/lit.suite.toml" % g, suite_toml(
                    "G%d" % g, "../work", features=s.features, subs=s.subs,
                    shtest={"extra": s.extra, "set": [("shell", s.shell)] if s.shell else []} if s.extra or s.shell else None))
                for i in members:
                    w.write("g%d/%s" % (g, part[i]["real"]["rel"]), part[i]["real"]["text"])
                    names[i] = ("G%d" % g, "g%d" % g)
            rc, out, err = w.run(["run", "-j", "8", "--path", "bin"] + (["--no-execute"] if noexec else [])
                                 + ["g%d" % g for g in range(len(groups))])
            st, rec = statuses(out), w.records()
            for i in ids:
                r = part[i]["real"]
                suite, d = names[i]
                s = st.get("%s::%s" % (suite, r["rel"]), [])
                temp = re.compile(re.escape(w.path("work", os.path.dirname(r["rel"]), "")) .replace("//", "/")
                                  + re.escape(os.path.basename(r["rel"])) + r"\.[A-Za-z0-9]+/"
                                  + re.escape(os.path.basename(r["rel"])) + r"\.tmp")

                def norm(x):
                    x = temp.sub("\ue001", x).replace(w.path(d), "\ue002/\ue004").replace(LBIN, "\ue003")
                    return cps(x)
                got[i] = {"status": s[0] if len(s) == 1 else "MISSING" if not s else "/".join(s),
                          "log": [[norm(x) for x in l] for l in rec.get(r["test"], [])],
                          "verdict": "ok", "msg": "exit %s\n%s" % (rc, err[-500:]) if not s else ""}
    return got
