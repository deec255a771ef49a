"""Bounded universes of check files and inputs: enumerated by TLC, replayed in the real FileCheck."""
import itertools, json, os, tempfile
import harness, tlc, fcase
from fcase import *
from harness import BUILD


def universe(dirs, n, chars, length, opts=({},), imp=(), env=None):
    return {"dirs": list(dirs), "lo": n[0], "hi": n[1], "chars": chars, "len": length,
            "opts": [dict({"icase": False, "scope": False, "allowempty": False}, **o) for o in opts],
            "imp": list(imp), "env": env or {}}


def size(u):
    nd, na = len(u["dirs"]), len(u["chars"])
    return (sum(nd ** i for i in range(u["lo"], u["hi"] + 1)) * sum(na ** i for i in range(u["len"] + 1))
            * len(u["opts"]))


def tla(u):
    out = dict(u)
    out["dirs"] = [dict(strip(d), ln=0) for d in u["dirs"]]
    out["chars"] = codes(u["chars"])
    out["imp"] = [strip(list(i)) for i in u["imp"]]
    out["env"] = fcase.case([], "", env=u["env"])["tla"]["env"]
    return out


def texts(x):
    """JSON of a TLA sequence: a list, or {} for the empty function."""
    return [x[k] for k in sorted(x, key=int)] if isinstance(x, dict) else list(x)


def same(o, verdict, out):
    if o["verdict"] != verdict:
        return False
    if verdict != "ok":
        return True
    out = texts(out)
    if len(out) != len(o["m"]):
        return False
    for s, m in zip(out, o["m"]):
        if [s["ln"], s["s"], s["e"]] != m[:3]:
            return False
        b = {x[0]: x[1] for x in texts(s["b"])}
        if set(b) != {c[0] for c in m[3]}:
            return False
        for c in m[3]:
            v = b[c[0]]
            if v["t"] == "s" and bytes(texts(v["v"])).decode() != c[2]:
                return False
    return True


def enumerate_and_replay(us, heap="10g", timeout=800):
    """Returns (tlc result, number of cases, rejected list)."""
    os.makedirs(BUILD, exist_ok=True)
    fd, path = tempfile.mkstemp(prefix="univ-", suffix=".json", dir=BUILD)
    with os.fdopen(fd, "w") as f:
        json.dump([tla(u) for u in us], f)
    try:
        r = tlc.run("FileCheckMC", env={"UNIVERSES": path}, heap=heap, timeout=timeout)
    finally:
        os.unlink(path)
    if r.error:
        raise harness.ToolError("TLC: " + r.error)
    allowed = {}
    for l in r.lines:
        if l.startswith("END "):
            k, verdict, out = json.loads(l[4:])
            key = (k["u"], tuple(texts(k["d"])), bytes(texts(k["in"])).decode(), k["o"])
            allowed.setdefault(key, []).append((verdict, out))
    want = sum(size(u) for u in us)
    if len(allowed) != want:
        raise harness.ToolError("TLC reported %d of %d cases" % (len(allowed), want))
    keys = sorted(allowed)
    cases = []
    for key in keys:
        u = us[key[0] - 1]
        o = u["opts"][key[3] - 1]
        cases.append(fcase.case([u["dirs"][i - 1] for i in key[1]], key[2], env=u["env"], imp=u["imp"],
                                **o))
    obs = harness.run("fc", [c["real"] for c in cases])
    rej = [(c, o, [json.dumps(a) for a in allowed[key]]) for key, c, o in zip(keys, cases, obs)
           if not any(same(o, v, out) for v, out in allowed[key])]
    return r, len(keys), rej, cases
