"""Checks of the properties about the commands: N01."""
import itertools, os, resource, subprocess
from concurrent.futures import ThreadPoolExecutor
import harness, lit, val


def bs(x):
    return list(x if isinstance(x, bytes) else x.encode())


# ---------------------------------------------------------------- N01: not
UNRUNNABLE = ["./plain", "./dir", "./plain/x"]


def not_case(words, via, n, given=b""):
    """words: with @ where the name of the test is to be; via: the name the binary is called by"""
    ws = [w.replace(b"@", b"z%d" % n) if isinstance(w, bytes) else w.replace("@", "z%d" % n).encode() for w in words]
    return {"real": {"words": [w.decode("latin-1") for w in ws], "via": via, "input": given.decode("latin-1"), "n": n},
            "tla": {"words": [list(w) for w in ws], "unrunnable": [bs(u) for u in UNRUNNABLE], "input": list(given), "test": bs("z%d" % n)}}


def not_describe(c, o, a):
    return ("a command is not negated as specified\n  %s %s\n  real: %s %s\n  specified: %s"
            % (c["real"]["via"], c["real"]["words"], {k: v for k, v in o.items() if k != "msg"}, o.get("msg", ""), a))


def not_run(part):
    with lit.World() as w:
        work = w.path("work")
        w.write("work/plain", b"")
        os.mkdir(w.path("work/dir"))
        os.symlink(harness.LBIN, w.path("bin/not"))
        os.symlink(harness.LBIN, w.path("bin/litcheck"))
        env = harness.run_env()
        env["PATH"] = w.path("bin")

        def one(c):
            r = c["real"]
            head = [w.path("bin/not")] if r["via"] == "not" else [w.path("bin/litcheck"), "not"]
            p = harness.spawn([x.encode() for x in head] + [x.encode("latin-1") for x in r["words"]], cwd=work, env=env,
                                 stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                 start_new_session=True)
            try:
                out, err = p.communicate(r["input"].encode("latin-1"), timeout=60)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.communicate()
                return {"verdict": "hang"}
            log = []
            try:
                data = open(w.path("work/log/z%d" % r["n"]), "rb").read()
                log = [[list(x) for x in rec.split(b"\x1f")] for rec in data.split(b"\x1e")[:-1]]
            except FileNotFoundError:
                pass
            usage = b"Usage:" in out + err
            return {"verdict": "ok", "code": p.returncode, "log": log, "out": [] if usage else list(out),
                    "msg": err[-200:].decode(errors="replace")}
        soft, hard = resource.getrlimit(resource.RLIMIT_CORE)
        resource.setrlimit(resource.RLIMIT_CORE, (0, hard))
        try:
            with ThreadPoolExecutor(8) as ex:
                return list(ex.map(one, part))
        finally:
            resource.setrlimit(resource.RLIMIT_CORE, (soft, hard))


def not_validate(ctx, name, cases, **extra):
    val.validate(ctx, name, "NotVal", "", cases, not_describe, run=not_run, chunk=8000,
                 obsf=lambda o, c: {"code": o["code"], "log": o["log"], "out": o["out"]}, **extra)


def not_ends(ctx):
    cs = []
    for via in ("not", "litcheck"):
        for crash in ([], ["--crash"]):
            for code in ["%d" % n for n in range(256)] + ["s%d" % n for n in list(range(1, 32)) + [34, 40, 63, 64] if n not in (19, 20, 21, 22)]:
                cs.append(not_case(crash + ["r", "@", "s", code], via, len(cs)))
    not_validate(ctx, "every exit status and signal, with and without --crash", cs, exhaustive=True)


WORDS = ["--crash", "--", "r", "@", "x", "1", "nope", "./plain", "help", "", "-x"]
TAILS = [["r", "@", "s", "1"], ["r", "@", "s", "0"], ["r", "@", "s", "s11"], ["nope"], ["./plain"], ["./dir"], ["./plain/x"], ["./nope/x"],
         ["help"], [""], []]


def not_words(ctx):
    cs = []
    pre = ["--crash", "--", "-x", "", "help", "r"]
    for n in range(0, 4 if ctx.thorough else 3):
        for h in itertools.product(pre, repeat=n):
            for t in TAILS:
                for end in ([], ["--crash"], ["--", "--crash"], ["--help"], ["-h", "--"], ["help"]):
                    cs.append(not_case(list(h) + t + end, "not", len(cs)))
    cs = [c for c in cs if not odd(c["tla"]["words"])]
    not_validate(ctx, "every list of bounded universes of words", cs, exhaustive=True,
                 universes=[{"before": pre, "commands": TAILS, "words_before": 3 if ctx.thorough else 2}])


def odd(ws):
    """Help asked of the command itself, which is not about a program"""
    for w in ws:
        if w == bs("--crash"):
            continue
        return w in (bs("--help"), bs("-h"))
    return False


def not_random(ctx):
    r = ctx.rnd("not")
    cs = []
    for _ in range(8000 if ctx.thorough else 800):
        ws = [r.choice(["--crash", "--", "-x", "x"])] * (r.random() < 0.5) + r.choice(TAILS)
        if r.random() < 0.7:
            ws = [r.choice(["--crash"])] * (r.random() < 0.5) + ["r", "@", r.choice("abc"), r.choice(["", "e", "e"]) + str(r.randint(0, 3)) if r.random() < 0.8 else "s9"]
        for _ in range(r.randint(0, 6)):
            ws.append(r.choice(["x", "", "--crash", "--", "-h", "--help", "--crash=1", "$HOME", "a b", "*", "'", '"', "\\", "\n", "\u00e9", b"\xff\xfe",
                                "help", "-", "=", "@"]))
        if not odd([bs(w) for w in ws]):
            cs.append(not_case(ws, r.choice(["not", "litcheck"]), len(cs), bytes(r.choice(b"ab\n\0\xff") for _ in range(r.choice([0, 1, 30, 3000])))))
    not_validate(ctx, "random words and input", cs)


def not_model(ctx):
    val.model(ctx, "every run of every short list of words", "NotMC")


CHECKS = {"N01": [not_model, not_ends, not_words, not_random]}
NEED_BINARY = {"N01"}


def about(i):
    return ("a TLA+ specification of the command as a state machine (Not.tla) checked with TLC; real runs with every exit status and signal, every "
            "short list of words and random ones are validated against it with TLC",
            "the program run is one that records its words; signals that stop a program are left out")
