"""Tests for litcheck: files, the settings of their suites, and what the specification is told of both."""
import itertools
from lit import cps

TEMP, ROOT, EXE = "\ue001", "\ue002", "\ue003"     # stand for paths that differ from run to run
FC = ["FileCheck", "Filecheck", "fileCheck", "filecheck"]


def defaults():
    """What every suite is given"""
    def e(k, m, v, w=()):
        return {"k": cps(k), "m": cps(m), "v": cps(v), "w": [cps(x) for x in w]}
    return [e(r"(?<before>^|\s)[Ff]ile[Cc]heck(?<after>$|\s)", "", EXE + " filecheck", FC),
            e(r"(?<before>^|\s)not(?<after>$|\s)", "", EXE + " not", ["not"]),
            e(r"%\{pathsep\}", "%{pathsep}", ":"), e(r"%\{fs-src-root\}", "%{fs-src-root}", "/"),
            e(r"%\{fs-tmp-root\}", "%{fs-tmp-root}", "/"), e(r"%\{fs-sep\}", "%{fs-sep}", "/")]


class Suite:
    def __init__(self, features=(), subs=(), extra=(), noexec=False, shell=None):
        self.features, self.subs, self.extra = tuple(features), tuple(subs), tuple(extra)
        self.noexec, self.shell = noexec, shell

    def key(self):
        return (self.features, self.subs, self.extra, self.noexec, self.shell)

    def all_features(self):
        return list(self.features) + ["system-linux", "native", "target-x86_64", "x86_64-linux",
                                      "host=x86_64-unknown-linux-gnu", "target=x86_64-unknown-linux-gnu"]


def case(suite, text, n, sub=""):
    """text: with @ where the name of the test is to be"""
    t = "c%d" % n
    text = text.replace("@", t)
    name = t + ".t"
    rel = (sub + "/" if sub else "") + name
    d = {"k": None}
    subs = defaults() + [{"k": cps(k), "m": cps(k), "v": cps(v), "w": []} for k, v in suite.subs]
    here = ROOT + "/\ue004"         # the directory of the suite
    more = [(k, v) for k, v in suite.extra] + [
        ("%s", here + "/" + rel), ("%S", here + ("/" + sub if sub else "")), ("%t", TEMP), ("%basename_t", name)]
    return {"real": {"test": t, "rel": rel, "text": text, "features": list(suite.features), "subs": list(suite.subs),
                     "extra": list(suite.extra), "noexec": suite.noexec},
            "suite": suite,
            "tla": {"text": cps(text), "features": [list(f.encode()) for f in suite.all_features()], "subs": subs,
                    "more": [{"k": cps(k), "v": cps(v)} for k, v in more], "noexec": suite.noexec}}
