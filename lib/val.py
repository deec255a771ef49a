"""Record answers of the real code and have TLC decide whether the specification gives the same."""
import json, os, tempfile, time
import harness, tlc
from harness import BUILD


def judge(module, tlas, workers=8, heap="8g", timeout=800):
    """tlas: case records with obs. Returns (accepted ids, {id: [specified]}, skipped ids, tlc result)."""
    fd, path = tempfile.mkstemp(prefix="cases-", suffix=".ndjson", dir=BUILD)
    with os.fdopen(fd, "w") as f:
        for i, t in enumerate(tlas):
            f.write(json.dumps(dict(t, id=i)) + "\n")
    try:
        r = tlc.run(module, env={"CASES": path}, workers=workers, heap=heap, timeout=timeout)
    finally:
        os.unlink(path)
    if r.error:
        raise harness.ToolError("TLC: " + r.error)
    acc, outs, skip = set(), {}, set()
    for l in r.lines:
        if l.startswith("ACC "):
            acc.add(int(l[4:]))
        elif l.startswith("SKIP "):   # outside of what the specification covers
            skip.add(int(l[5:]))
        elif l.startswith("OUT "):
            i, _, t = l[4:].partition(" ")
            outs.setdefault(int(i), []).append(t)
    missing = [i for i in range(len(tlas)) if i not in acc and i not in outs and i not in skip]
    if missing:
        raise harness.ToolError("TLC left case %d undecided" % missing[0])
    return acc, outs, skip, r


def validate(ctx, name, module, mode, cases, describe, obsf=None, size=None, chunk=6000, run=None,
             timeout=800, hargs=None, verdicts=False, **extra):
    """cases: [{"real": for the harness, "tla": for the specification}].
    obsf(obs, case) gives the obs record compared by TLC. run: something else than the harness."""
    skipped, rejected = 0, []
    try:
        for i in range(0, len(cases), chunk):
            part = cases[i:i + chunk]
            if rejected and not ctx.thorough and time.time() - ctx.t0 > 300:
                break   # enough has been seen
            reals = [dict(c["real"], id=k) for k, c in enumerate(part)]
            got = run(part) if run else harness.run(mode, reals, **(hargs or {}))
            # no answer at all: nothing for TLC to look at
            dead = [k for k, o in enumerate(got) if o.get("verdict") in ("crash", "hang", "panic") and not verdicts]
            if dead:
                rejected += [(part[k], got[k], []) for k in dead]
                part, got = ([x for k, x in enumerate(xs) if k not in dead] for xs in (part, got))
                if not part:
                    continue
            tl = [dict(c["tla"], obs=obsf(o, c) if obsf else {k: v for k, v in o.items() if k not in ("id", "msg")})
                  for c, o in zip(part, got)]
            acc, outs, skip, r = judge(module, tl, timeout=timeout)
            ctx.tlc(r)
            ctx.traces += len(part) - len(skip)
            skipped += len(skip)
            rejected += [(part[k], got[k], outs.get(k, [])) for k in range(len(part)) if k not in acc and k not in skip]
            if i == 0:
                for c, o in list(zip(part, got))[::max(1, len(part) // 3)][:3]:
                    ctx.sample({"case": c["real"], "real": {k: v for k, v in o.items() if k != "id"}})
    except Exception:
        # What was seen before stands
        for c, o, a in rejected:
            ctx.violation(describe(c, o, a), {"case": c["real"], "observed": o, "specified": a})
        raise
    rejected.sort(key=lambda t: size(t[0]) if size else len(json.dumps(t[0]["real"])))
    for c, o, a in rejected:
        ctx.violation(describe(c, o, a), {"case": c["real"], "observed": o, "specified": a})
    ctx.parts.append(dict({"part": name, "cases": len(cases)},
                          **(dict(extra, outside_of_the_specified_language=skipped) if skipped else extra)))
    return rejected


def model(ctx, name, module, cfg=None, timeout=800, heap="6g", **extra):
    """Check the invariants of a specification on its own. They hold or the specification is wrong."""
    r = tlc.run(module, cfg=cfg, timeout=timeout, heap=heap)
    if r.error:
        raise harness.ToolError("the specification itself is wrong: " + r.error)
    ctx.tlc(r)
    ctx.parts.append(dict({"part": name, "states": r.states, "exhaustive": True}, **extra))
