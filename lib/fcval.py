"""Record real FileCheck runs and have TLC decide whether the specification allows them."""
import json, os, re, tempfile
import harness, tlc
from harness import BUILD


def obs_json(o):
    v = o["verdict"]
    r = {"verdict": v, "m": []}
    if v == "ok":
        r["m"] = [[m[0], m[1], m[2], [[c[0], c[3], c[4]] for c in m[3]]] for m in o["m"]]
    return r


FRAME = re.compile(r"\u256d\u2500\[(.*?):(\d+):(\d+)\]")


def culprits(c, o):
    """Whom the errors of a failed run name: [[lines of checks, in order, 0 for the command line], offset in the input]."""
    check, inp = c["real"]["check"].split("\n"), c["real"]["input"].encode()
    errs = []
    for text in o.get("texts", []):
        lns, at = [], -1
        for name, ln, col in FRAME.findall(text):
            ln, col = int(ln), int(col)
            if name == "check.txt":
                # A position may be that of the blanks in front of the directive
                while ln < len(check) and not check[ln - 1][col - 1:].strip():
                    ln, col = ln + 1, 1
                lns.append(ln)
            elif name != "input.txt":
                lns.append(0)
            elif at < 0 and not lns:
                lines = inp.split(b"\n")
                at = sum(len(l) + 1 for l in lines[:ln - 1]) + len(lines[ln - 1].decode()[:col - 1].encode())
        errs.append({"lns": lns, "at": at})
    return {"verdict": o["verdict"], "errs": errs}


UNUSED = re.compile(r"no check strings found with prefix\(es\) (.*)")


def faults(o, c):
    """What the error about a check file that cannot be used points at: places in the file, options, prefixes."""
    lines = c["real"]["check"].replace("\r\n", "\n").split("\n")
    places, named = [], []
    for text in o.get("texts", []):
        m = UNUSED.search(text)
        if m:
            named += [list(n.encode()) for n in re.findall(r"'([^']*)'", text[m.start():])]
        for name, ln, col in FRAME.findall(text):
            at = 0
            if name == "check.txt":
                ln, col = int(ln), int(col)
                at = sum(len(l.encode()) + 1 for l in lines[:ln - 1]) + len(lines[ln - 1][:col - 1].encode())
            places.append({"k": {"check.txt": "check"}.get(name, "option" if name.startswith("--implicit-check-not") else "other"), "p": at})
    return {"verdict": o["verdict"], "places": places, "named": named}


WHOLE = re.compile(r"^searched this region of the input \(lines? (\d+)(?:-(\d+))?\)$")
ENDS = re.compile(r"^searched (\d+) lines of input without a match \(lines (\d+)-(\d+)\)$")
NONE = {"the search began at the end of the input, so no input remained to be searched": "none",
        "the region of input available to be searched was empty": "none",
        "searched the same region of the input as an earlier failure": "same"}
DUMP = re.compile(r"^the input that was checked \((\d+) line\(s\), (\d+) failed check\(s\)\)$")
MATCHED = re.compile(r"^(\d+) check\(s\) matched, as annotated above$")
BYLINE = re.compile(r"^matched by the check on line (\d+)$")


def stretch(said):
    def st(k, n=0, a=0, b=0, s=0, e=0):
        return [{"k": k, "n": int(n), "a": int(a), "b": int(b), "s": s, "e": e}]
    if not said:
        return []
    said = [x for x in said if x[0] in NONE or WHOLE.match(x[0]) or ENDS.match(x[0]) or x[0].startswith("...and ")] or said
    text, at = said[0]
    if len(said) == 1 and text in NONE and not at:
        return st(NONE[text])
    m = WHOLE.match(text)
    if m and len(said) == 1 and len(at) == 1:
        a, b = m.group(1), m.group(2) or m.group(1)
        return st("whole", int(b) - int(a) + 1, a, b, at[0][1], at[0][2])
    m = ENDS.match(text)
    if m and len(said) == 2 and len(at) == 1 and len(said[1][1]) == 1:
        last = {"...and ran to the end of the input": "ends, to the last", "...and ran to here": "ends"}.get(said[1][0], "?")
        return st(last, m.group(1), m.group(2), m.group(3), at[0][1], said[1][1][0][1])
    return st("?") if any("search" in x[0] for x in said) else []


def shown(c, o):
    """What a failed run shows of the input: where checks were looked for, and the dump."""
    dump = []
    d = o.get("dump")
    if d:
        m = DUMP.match(d["text"])
        whole, at = d["labels"][0], d["labels"][1:]
        n = MATCHED.match(whole[0])
        matched = int(n.group(1)) if n else 0 if whole[0] == "no checks matched anywhere in this input" else -1
        if m:
            dump = [{"lines": int(m.group(1)), "failed": int(m.group(2)), "matched": matched, "s": whole[1], "e": whole[2],
                     "at": [[int(BYLINE.match(l[0]).group(1)) if BYLINE.match(l[0]) else 0, l[1], l[2]] for l in at]}]
    return {"verdict": o["verdict"], "dump": dump,
            "nodes": [{"ln": n["ln"] or 0, "said": stretch(n["said"])} for n in o.get("nodes", [])]}


def validate(cases, module="FileCheckVal", workers=8, heap="8g", obsf=lambda c, o: obs_json(o), **extra):
    """cases: from fcase.case. Returns (rejected, tlc result): rejected = [(case, obs, allowed outcomes)]."""
    reals = [dict(c["real"], id=i, **extra) for i, c in enumerate(cases)]
    obs = harness.run("fc", reals)
    fd, path = tempfile.mkstemp(prefix="cases-", suffix=".ndjson", dir=BUILD)
    with os.fdopen(fd, "w") as f:
        for i, (c, o) in enumerate(zip(cases, obs)):
            f.write(json.dumps(dict(c["tla"], id=i, obs=obsf(c, o))) + "\n")
    try:
        r = tlc.run(module, env={"CASES": path}, workers=workers, heap=heap)
    finally:
        os.unlink(path)
    if r.error:
        raise harness.ToolError("TLC: " + r.error)
    acc, outs, skip = set(), {}, set()
    for l in r.lines:
        if l.startswith("ACC "):
            acc.add(int(l[4:]))
        elif l.startswith("SKIP "):   # outside of what the specification covers
            skip.add(int(l[5:]))
        elif l.startswith("OUT "):
            i, _, t = l[4:].partition(" ")
            outs.setdefault(int(i), []).append(t)
    missing = [i for i in range(len(cases)) if i not in acc and i not in outs and i not in skip]
    if missing:
        raise harness.ToolError("TLC left case %d undecided" % missing[0])
    rej = [(cases[i], obs[i], outs[i]) for i in range(len(cases)) if i not in acc and i not in skip]
    r.skipped = len(skip)
    return rej, r, obs
