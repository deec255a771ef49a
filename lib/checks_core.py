"""Checks of the properties about the shared data structures: C01 .. C04."""
import itertools, os, shutil, tempfile
import harness, val


def show(what):
    def go(c, o, a):
        return "%s\n  case: %s\n  real: %s\n  specified: %s" % (
            what, str(c["real"])[:700], str({k: v for k, v in o.items() if k != "id"})[:700], str(a)[:900])
    return go


# ---------------------------------------------------------------- C01: the path tree
def comps(p):
    """The components of a path as the standard library of Rust takes it apart."""
    parts = [c for i, c in enumerate(p.split("/")) if c and (c != "." or i == 0)]
    if p.startswith("@"):
        return ["@"] + [c for c in parts[1:]]
    return (["/"] if p.startswith("/") else []) + parts


ORDER = ["@", "/", ".", ".."]


class Tree:
    """A scratch directory with some directories and files, and paths in it."""
    def __init__(self, dirs=(), files=(), links=()):
        self.base = os.path.realpath(tempfile.mkdtemp(prefix="tree-", dir=harness.BUILD))
        os.mkdir(self.base + "/cwd")
        self.kinds = [[["/"], "dir"]]
        for d in dirs:
            os.mkdir(self.base + "/" + d)
        for f in files:
            open(self.base + "/" + f, "w").close()
        for l, to in links:
            os.symlink(to, self.base + "/" + l)
        self.kinds += [[["@"], "dir"], [["@", "cwd"], "dir"]]
        self.kinds += [[["@"] + d.split("/"), "dir"] for d in dirs] + [[["@"] + f.split("/"), "file"] for f in files]

    def path(self, p):
        """The components a path stands for: existing ones are taken from the file system."""
        real = self.base + p[1:] if p.startswith("@") else p if p.startswith("/") else self.base + "/cwd/" + p
        if os.path.exists(real):
            real = os.path.realpath(real)
            if real == self.base or real.startswith(self.base + "/"):
                return ["@"] + [c for c in real[len(self.base):].split("/") if c]
            return comps(real)
        return comps(p)

    def odd(self, p):
        """Refused by the file system although its normal form exists: a file taken for a directory;
        or a relative path that comes out as nothing, which the tree does not take."""
        n = []
        for c in self.path(p):
            if c == ".." and n == ["@"]:
                return True         # leaves the scratch directory
            if c != ".":
                n = n[:-1] if c == ".." and n and n[-1] not in ("..", "/", "@") else n + [c]
        return not n or p.startswith("@") and not os.path.exists(self.base + p[1:]) and n in [k[0] for k in self.kinds]

    def case(self, ops, queries):
        t = [["ins", self.path(o[1]), o[2]] if o[0] == "ins" else ["clear"] for o in ops]
        q = [self.path(x) for x in queries]
        names = sorted({c for p in [o[1] for o in t if o[0] == "ins"] + q for c in p if c not in ORDER}, key=lambda s: s.encode())
        return {"real": {"base": self.base, "ops": ops, "queries": list(queries)},
                "tla": {"ops": t, "queries": q, "kinds": self.kinds,
                        "rank": {c: i for i, c in enumerate(ORDER + names)}}}

    def close(self):
        shutil.rmtree(self.base)


def tree_validate(ctx, name, tree, cases, **extra):
    val.validate(ctx, name, "PathTreeVal", "ppt", cases, show("the path tree answers otherwise than the map it is"),
                 hargs={"cwd": tree.base + "/cwd"}, **extra)


UNIVERSES = [
    ("absolute", ["/vq", "/vq/a", "/vq/a/b", "/vq/a/b/c", "/vq/ab", "/vq/a/c", "/vr"], []),
    ("relative", ["q", "q/a", "q/a/b", "./q/./a", "q/x/../a", "qa", "../vq", "../vq/a"], []),
    ("deep", ["/vq/a/b/c/d", "/vq/a/b/c/d/e", "/vq/a/b/x/y", "/vq/a/b", "/vq/a/b/c", "/../vq/a", "/"], ["/vq/a/b/x"]),
    ("file system", ["@", "@/d", "@/d/f", "@/d/e", "@/d/e/n", "@/d/f/n", "@/ln/f", "@/n/m", "@/n"],
     ["@/ln", "@/d/../d/e", "@/none"]),
]
FS = dict(dirs=["d", "d/e", "g"], files=["d/f", "h"], links=[("ln", "d"), ("hl", "h")])


def tree_every(ctx):
    for name, paths, more in UNIVERSES:
        tree = Tree(**FS)
        try:
            cs = []
            for n in range(0, (4 if ctx.thorough else 3) + 1):
                for seq in itertools.product(paths, repeat=n):
                    cs.append(tree.case([["ins", p, i + 1] for i, p in enumerate(seq)], paths + more))
            if ctx.tier == "quick" and len(cs) > 900:
                cs = cs[:60] + cs[60::2]
            tree_validate(ctx, "histories of insertions of %s paths" % name, tree, cs,
                          exhaustive=ctx.thorough, paths=paths)
        finally:
            tree.close()


def tree_random(quick, thorough):
    def go(ctx):
        r = ctx.rnd("tree")
        tree = Tree(**FS)
        try:
            cs = []
            for _ in range(thorough if ctx.thorough else quick):
                names = r.sample(["a", "b", "ab", "a.b", "B", "-", "a b", "\u00e9", "..a", "zz"], r.randint(2, 4))
                roots = r.choice([["/vq/"], ["/vq/", "/vr/"], ["n/"], ["n/", "/vq/", "../vz/"], ["@/d/", "@/g/", "@/"],
                                  ["@/d/e/", "@/d/"], ["@/ln/", "@/d/"], ["@/h/", "@/", "@/d/f/"]])

                def path():
                    return next(p for p in iter(any_path, 0) if not tree.odd(p))

                def any_path():
                    cs_ = [r.choice(names) for _ in range(r.randint(0, 5))]
                    if r.random() < 0.15:
                        cs_.insert(r.randint(0, len(cs_)), r.choice([".", ""]))
                    if len(cs_) > 1 and r.random() < 0.15:
                        cs_.insert(r.randint(1, len(cs_)), "..")
                    p = r.choice(roots) + "/".join(cs_)
                    if "@" not in p and r.random() < 0.3:
                        p = p.rstrip("/")
                    return p
                pool = [path() for _ in range(r.randint(2, 8))]
                ops, v = [], 0
                for _ in range(r.randint(1, 14)):
                    v += 1
                    if r.random() < 0.04:
                        ops.append(["clear"])
                    else:
                        ops.append(["ins", r.choice(pool) if r.random() < 0.6 else path(), v])
                qs = pool + [path() for _ in range(4)] + [x[1].rsplit("/", 1)[0] for x in ops if x[0] == "ins"]
                qs = [q for q in dict.fromkeys(qs) if q and not tree.odd(q)][:14]
                cs.append(tree.case(ops, qs))
            tree_validate(ctx, "random histories of insertions and clearings", tree, cs)
        finally:
            tree.close()
    return go


def model(name, module):
    return lambda ctx: val.model(ctx, name, module)


# ---------------------------------------------------------------- C02: texts and places
def codes(s):
    return [ord(c) for c in s]


def text_case(text, edits, sels, width):
    return {"real": {"text": text, "edits": edits, "sels": sels, "width": width},
            "tla": {"text": codes(text), "edits": [[codes(w), s or []] for w, s in edits], "sels": sels, "width": width}}


def texts(alphabet, n):
    return ["".join(t) for k in range(n + 1) for t in itertools.product(alphabet, repeat=k)]


def text_validate(ctx, name, cases, **extra):
    val.validate(ctx, name, "SourceTextVal", "src", cases, show("a place in a text, or an edit of it, is not as specified"), **extra)


def text_every(ctx):
    cs = [text_case(t, [], [], 4) for t in texts(["a", "\n", "\u00e9", "\U0001f600", "\r"], 5 if ctx.thorough else 4)]
    text_validate(ctx, "every place of every text up to a length", cs, exhaustive=True)
    cs = []
    places = [(l, k) for l in range(3) for k in range(4)]
    for t in texts(["a", "\n", "\u20ac"], 3 if ctx.thorough else 2):
        cs.append(text_case(t, [], [list(a + b) for a in places for b in places], 5))
        for w in ("", "b", "\n", "\u00e9\nb"):
            for a in places:
                for b in places:
                    cs.append(text_case(t, [[w, list(a + b)]], [], 5))
    if not ctx.thorough:
        cs = cs[::2]
    text_validate(ctx, "every edit of every text up to a length", cs, exhaustive=ctx.thorough)


def text_random(quick, thorough):
    def go(ctx):
        r = ctx.rnd("text")
        cs = []
        for _ in range(thorough if ctx.thorough else quick):
            ab = r.choice(["ab\n", "a\n", "a\u00e9\n", "a\u00e9\u20ac\U0001f600\n", "\n\r a", "xyz\n\n"])
            word = lambda n: "".join(r.choice(ab) for _ in range(r.randint(0, n)))
            text = word(r.choice([3, 12, 30]))
            cur, edits = text, []

            def place(t):
                if r.random() < 0.15:
                    return [r.randint(0, 8), r.randint(0, 12)]
                o = r.randint(0, len(t))
                return [t[:o].count("\n"), o - (t.rfind("\n", 0, o) + 1)]
            for _ in range(r.randint(0, 6)):
                if r.random() < 0.1:
                    cur = word(12)
                    edits.append([cur, None])
                else:
                    a, b = place(cur), place(cur)
                    w = word(5)
                    edits.append([w, a + b])
                    # to follow along, as far as the edit is one
                    ls = cur.split("\n")
                    if all(p[0] < len(ls) and p[1] <= len(ls[p[0]]) for p in (a, b)):
                        i, j = sorted(sum(len(l) + 1 for l in ls[:p[0]]) + p[1] for p in (a, b))
                        cur = cur[:i] + w + cur[j:]
            cs.append(text_case(text, edits, [place(cur) + place(cur) for _ in range(6)], 8))
        text_validate(ctx, "random texts and edits", cs)
    return go


# ---------------------------------------------------------------- C03: the source store
def op_tla(o):
    if o[0] == "load":
        return [o[0], o[1], o[2], codes(o[3])]
    if o[0] == "update":
        return [o[0], o[1], codes(o[2]), o[3] or []]
    return o


def store_case(ops, threads=None):
    c = {"real": {"ops": ops}, "tla": {"ops": [op_tla(o) for o in ops], "threads": []}}
    if threads:
        c["real"]["threads"] = threads
        c["tla"]["threads"] = [[op_tla(o) for o in t] for t in threads]
    return c


def store_validate(ctx, name, cases, **extra):
    val.validate(ctx, name, "SourceStoreVal", "mgr", cases, show("the source store answers otherwise than specified"),
                 obsf=lambda o, c: {"ans": o["ans"], "runs": o.get("runs", [])}, **extra)


STORE_OPS = [
    ["load", "file", "n", "a\nb"], ["load", "file", "n", "c"], ["load", "file", "m", "a\nb"], ["load", "argument", "n", "c"],
    ["load", "argument", "p", "\u00e9"],
    ["update", ["file", 0], "c", None], ["update", ["file", 0], "xy", [0, 0, 0, 1]], ["update", ["file", 1], "\n", [0, 0, 5, 0]],
    ["update", ["argument", 0], "z", None], ["update", ["file", 7], "z", None],
    ["hold", ["file", 0]],
]
STORE_ASK = [
    ["get", ["file", 0]], ["get", ["file", 1]], ["get", ["argument", 0]], ["get", ["unknown", 0]], ["get", ["file", 9]],
    ["find", "n"], ["find", "m"], ["find", "p"], ["named", "n"], ["named", "m"], ["named", "p"], ["held", 0], ["held", 1],
    ["slice", ["file", 0], 0, 1], ["slice", ["file", 0], 1, 3], ["slice", ["file", 0], 2, 9], ["slice", ["argument", 0], 1, 2],
    ["place", ["file", 0], 2], ["place", ["file", 0], 4], ["place", ["file", 1], 0], ["place", ["unknown", 0], 0],
    ["placed", "n", 1, 0], ["placed", "n", 0, 2], ["placed", "p", 0, 1], ["placed", "q", 0, 0],
    ["locate", ["file", 0], 0, 3], ["locate", ["file", 0], 0, 4], ["located", "n", 1, 1], ["located", "n", 0, 3],
    ["located", "m", 2, 1], ["located", "m", 0, 9],
    ["copy", ["file", 0]], ["copy", ["argument", 0]], ["copy", ["file", 3]],
]


def store_every(ctx):
    cs = []
    for n in range((4 if ctx.thorough else 3) + 1):
        for seq in itertools.product(STORE_OPS, repeat=n):
            cs.append(store_case(list(seq) + STORE_ASK))
    store_validate(ctx, "every history of bounded length and all questions after it", cs, exhaustive=True, operations=STORE_OPS)


def store_op(r, names, sizes):
    h = lambda: [r.choice(["file", "file", "file", "argument", "unknown"]), 0] if r.random() < 0.2 else \
        [r.choice(["file", "file", "argument"]), r.randint(0, sizes)]
    h_ = h()
    if h_[0] == "unknown":
        h_ = ["unknown", 0]
    word = lambda: "".join(r.choice("ab\n\u00e9") for _ in range(r.choice([0, 1, 2, 4, 7])))
    k = r.choice(["load"] * 6 + ["update"] * 5 + ["get", "get", "find", "named", "hold", "held", "slice", "slice",
                                                 "place", "placed", "locate", "located", "copy"])
    n = r.choice(names)
    o = lambda: r.randint(0, 9)
    return {"load": lambda: ["load", r.choice(["file", "file", "argument"]), n, word()],
            "update": lambda: ["update", h_, word(), None if r.random() < 0.5 else [r.randint(0, 2), r.randint(0, 3), r.randint(0, 2), r.randint(0, 3)]],
            "get": lambda: ["get", h_], "find": lambda: ["find", n], "named": lambda: ["named", n], "hold": lambda: ["hold", h_],
            "held": lambda: ["held", r.randint(0, 3)], "slice": lambda: ["slice", h_] + sorted([o(), o()]),
            "place": lambda: ["place", h_, o()], "placed": lambda: ["placed", n, r.randint(0, 3), r.randint(0, 4)],
            "locate": lambda: ["locate", h_] + sorted([o(), o()]), "located": lambda: ["located", n, o(), o()],
            "copy": lambda: ["copy", h_]}[k]()


def store_random(quick, thorough):
    def go(ctx):
        r = ctx.rnd("store")
        cs = []
        for _ in range(thorough if ctx.thorough else quick):
            names = ["n%d" % i for i in range(r.randint(1, 4))]
            cs.append(store_case([store_op(r, names, r.randint(0, 4)) for _ in range(r.randint(1, 40))]))
        store_validate(ctx, "random histories", cs)
    return go


def store_threads(quick, thorough):
    def go(ctx):
        r = ctx.rnd("threads")
        cs = []
        for _ in range(thorough if ctx.thorough else quick):
            names = ["n%d" % i for i in range(r.randint(1, 2))]
            ops = [["load", "file", n, "ab"] for n in names[:r.randint(0, 2)]]
            one = lambda: next(o for o in iter(lambda: store_op(r, names, 2), 0) if o[0] != "copy")   # is several requests
            threads = [[one() for _ in range(r.randint(1, 4))] for _ in range(r.randint(2, 4))]
            cs.append(store_case(ops, threads))
        store_validate(ctx, "requests of several threads at the same time, linearized by TLC", cs, chunk=1500)
    return go


# ---------------------------------------------------------------- C04: ranges, spans, selections
def range_case(op, args):
    return {"real": {"op": op, "args": args}, "tla": {"op": op, "args": args}}


def ranges(ctx):
    cs = []
    small = [0, 1, 2, 3, 254, 255]
    for a in small:
        for b in small:
            for op in ("new", "len", "empty", "pop_front", "pop_back"):
                cs.append(range_case(op, [a, b]))
            for k in small + [100, 253]:
                for op in ("contains", "shrink_front", "truncate"):
                    cs.append(range_case(op, [a, b, k]))
    n = lambda k: [0, k]
    t = lambda k: [1, -k]
    big = [n(0), n(1), n(2), n(3), t(2), t(1), t(0)]
    bounds = [["un", n(0)]] + [[k, v] for k in ("in", "ex") for v in big]
    for op in ("resolve", "default"):
        for lo, hi in [(n(0), n(0)), (n(0), n(2)), (n(1), n(2)), (n(1), n(3)), (n(0), t(1)), (n(0), t(0)), (t(1), t(0)), (t(0), t(0))]:
            for a in bounds:
                for b in bounds:
                    cs.append(range_case(op, [a, b, lo, hi]))
    for a in big:
        for b in big:
            cs.append(range_case("span", [a, b]))
            for d in range(4):
                for e in range(4):
                    cs.append(range_case("shift", [a, b, d, e]))
                    cs.append(range_case("extend", [a, b, d, e]))
            cs.append(range_case("index", [a, b]))
    cs += [range_case("span_over", [k]) for k in (1, 2, 1000)]
    cs += [range_case("span_at", [k]) for k in (0, 1, 77)]
    cs += [range_case("span_slice", [a, b]) for a in range(8) for b in range(8)]
    cs += [range_case("slice", [a, b]) for a in range(8) for b in range(8)]
    ends = [0, 1, 2, 10, 254, 255]
    cs += [range_case("order", list(x)) for x in itertools.product(ends[:2] + ends[3:] if not ctx.thorough else ends, repeat=4)]
    cs += [range_case("convert", [a, b]) for a in ends for b in ends]
    cs += [range_case("span_as", [a, b]) for a in ends for b in ends if a <= b]
    cs += [range_case("spanned", list(x)) for x in itertools.product([0, 3], [0, 1, 7], [0, 3], [0, 1, 7])]
    cs += [range_case("lines", [a, b]) for a in range(4) for b in range(4)]
    cs += [range_case("step", [a, k]) for a in big for k in range(-5, 6)]
    m = 4 if ctx.thorough else 3
    cs += [range_case("selection", list(x)) for x in itertools.product(range(m), repeat=4)]
    if ctx.thorough:
        for a in range(0, 256, 5):
            for b in range(0, 256, 3):
                for k in range(0, 256, 17):
                    cs += [range_case(op, [a, b, k]) for op in ("contains", "shrink_front", "truncate")]
    val.validate(ctx, "every operation on chosen numbers", "RangesVal", "sel", cs,
                 show("an operation on a range, span or selection is not that of the set of offsets"),
                 size=lambda c: sum(abs(x) for x in str(c["real"]["args"]).encode()), exhaustive=True)


CHECKS = {
    "C01": [model("laws of the path tree", "PathTreeMC"), tree_every, tree_random(1500, 30000)],
    "C02": [model("laws of texts, places and edits", "SourceTextMC"), text_every, text_random(1500, 30000)],
    "C03": [model("laws of the source store", "SourceStoreMC"), store_every, store_random(1500, 30000), store_threads(1200, 20000)],
    "C04": [ranges],
}
NEED_BINARY = set()


def about(i):
    return {
        "C01": ("histories of insertions into the real path tree, exhaustive over small universes of absolute, relative and existing "
                "paths and random beyond, are each validated by TLC as behaviours of PathTree.tla",
                "bounded universes of paths; removal exists only as clearing; empty paths are left out"),
        "C02": ("edits of real texts and all their places afterwards are validated by TLC as behaviours of SourceText.tla, whose laws "
                "TLC checks for all texts up to a length",
                "texts up to a bound exhaustively, random beyond"),
        "C03": ("histories of requests to the real source store are validated by TLC as behaviours of SourceStore.tla; requests of "
                "several threads are linearized by TLC",
                "thread schedules are those which the machine happens to run"),
        "C04": ("answers of the real ranges, spans, selections and indices validated by TLC against the sets of offsets of Ranges.tla",
                "numbers near zero and near the maximum of their type"),
    }[i]
