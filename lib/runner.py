"""Run the parts of a property's check, report violations and known findings, write the evidence."""
import json, os, random, re, signal, sys, time, traceback
import harness
from harness import VERIF, BUILD, ToolError

LIMIT = 860   # seconds a quick check may take


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.parts, self.notes = [], [], [], []
        self.assumptions = []
        self.t0 = time.time()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def rnd(self, name):
        return random.Random("%s/%s/%s" % (self.prop, name, self.seed))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def tlc(self, r):
        self.states += r.states
        self.transitions += r.generated

    def hurry(self):
        """Is there something to report, and has the check been at work for long?"""
        return bool(self.violations) and not self.thorough and time.time() - self.t0 > 300

    def violation(self, what, data):
        self.violations.append((what, data))


def known(prop):
    """The findings of a property listed in known_findings.txt: [(probe file, text)]."""
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"finding: property=(\S+) probe=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                res.append((os.path.join(VERIF, m.group(2)), m.group(3)))
    return res


def late(*a):
    raise ToolError("the check did not come to its end within %d s" % LIMIT)


def main(prop, tier, seed):
    import checks
    t0 = time.time()
    ctx = Ctx(prop, tier, seed)
    if prop not in checks.CHECKS:
        print("no check for property", prop)
        return 2
    # A check has an end: what was found by then is what it reports
    if not ctx.thorough:
        signal.signal(signal.SIGALRM, late)
        signal.alarm(LIMIT)
    try:
        harness.build(binary=prop in checks.NEED_BINARY)
        for part in checks.CHECKS[prop]:
            t1 = time.time()
            if ctx.hurry():
                ctx.parts.append({"part": "parts after the first violations", "left_out": True})
                break
            part(ctx)
            ctx.parts[-1:] = [] if not ctx.parts else [dict(ctx.parts[-1], wall_s=round(time.time() - t1, 1))]
        for probe, text in [] if ctx.hurry() else known(prop):
            st = checks.probe(json.load(open(probe)))
            if st == "finding":
                print("KNOWN-FINDING: property=%s %s" % (prop, text))
            elif st != "fine":
                ctx.violation("the case of a known finding now fails in another way: " + st,
                              json.load(open(probe)))
    except Exception as e:
        # What the code did wrong up to here stands
        if isinstance(e, ToolError):
            print("TOOL ERROR: %s" % e)
        else:
            traceback.print_exc()
        if not ctx.violations:
            return 2
    signal.alarm(0)
    os.makedirs(os.path.join(BUILD, "replays"), exist_ok=True)
    paths = []
    for i, (what, data) in enumerate(ctx.violations[:5]):
        p = os.path.join(BUILD, "replays", "%s-%d.json" % (prop, i))
        with open(p, "w") as f:
            json.dump({"property": prop, "what": what, "data": data}, f, indent=1, default=str)
        print(what[:2000])
        print("VIOLATION property=%s replay=%s" % (prop, p))
        paths.append(p)
    if len(ctx.violations) > 5:
        print("and %d more violations" % (len(ctx.violations) - 5))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": ctx.states, "transitions": ctx.transitions,
                       "traces_validated_against_impl": ctx.traces, "samples": ctx.samples,
                       "parts": ctx.parts},
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - t0, 1),
          "violations": len(ctx.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d states, %d transitions, %d runs of the real code checked, %d violations, %.0f s"
          % (prop, tier, ctx.states, ctx.transitions, ctx.traces, len(ctx.violations), time.time() - t0))
    return 1 if ctx.violations else 0
