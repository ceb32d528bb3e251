"""P15: looking up the nodes of a path, and the values that are there."""
import tree, xprint, xcli, p16
from vf import hx, unhx, show
from xprint import E, T, C, R, A, X, HOLE
from xcli import path

P = lambda t, s: ("P", t, s)
a, b, x, y, k = b"a", b"b", b"x", b"y", b"k"
LOOK = p16.PATHS + [path(("//", "=b"), "."), path(("//", "text"), ".."), path(("//", "node"), ("fol", "=b", "pos", 1)), path(("//", "=b"), ("@", "=y"))]
FROM = [path(rel=True), path(".", rel=True), path(("/", "*"), rel=True), path(("/", "=b"), rel=True), path(("/", "text"), rel=True), path(("@", "=x"), rel=True), path(("@", "*"), rel=True),
        path("..", rel=True), path(("//", "=b"), rel=True), path(("//", "node"), rel=True), path(("fol", "*"), rel=True), path(("pre", "node"), rel=True), path(("anc", "*", "pos", 1), rel=True)]
FROM = [f for f in FROM if f[0] != "/" or not f[2]]

DOCS = [  # name, starts, menu, events quick, thorough
    ("shape", [(), (E(a),)], [E(a), E(b), X, T(b"7"), T(b"0x1f"), C(b"3"), P(b"p", b"4"), A(x, T(b"12"))], 4, 5),
    ("order", [(E(a), A(x, T(b"1")), E(b), A(y, T(b"2")), T(b"5"))], [X, E(a), T(b"6"), C(b"8"), A(x, T(b"-9")), R(b"nbsp")], 4, 5),
    ("spaces", [(E(a, b"q", b"urn:q"), ("N", b"q", b"urn:q"))], [E(a, b"q", b"urn:q"), E(b), A(x, T(b"1"), p=b"q", h=b"urn:q"), A(x, T(b"2")), T(b"3"), X], 4, 5),
]
NUM = [b"0", b"1", b"7", b"8", b"9", b"-", b"x", b"f", b" ", b"."]
HOLES = [
    ("numbers", [(E(a), T(HOLE), X)], NUM, 3, 5),
    ("places", [(E(a), A(x, T(HOLE)), C(b"1"), E(b), C(b"7"), T(HOLE), X, T(HOLE), X), (T(HOLE), E(a), P(b"p", HOLE), T(HOLE), X)], [b"", b"4", b"-2", b"0x", b"0", b"f", b"3.25"], 2, 3),
    ("fractions", [(E(a), T(HOLE), X)], [b"1", b"50", b".", b"e", b"-", b"+", b"2", b".25", b" ", b"z"], 3, 5),
    ("large", [(E(a), T(HOLE), X)], [b"-", b"0x", b"0", b"9223372036854775", b"807", b"808", b"21474", b"83647", b"83648", b"7fffffff", b"ffffffff", b"1"], 3, 4),
]
WALK = len(LOOK)


def opt(h): return [] if unhx(h) is None else [list(unhx(h))]


def shown(s):
    out = []
    for f in s.split(","):
        if f:
            n, v, i = f.split("/")
            out.append([opt(n), opt(v), int(i)])
    return out


def values(f): return {"i": list(f[0].encode()), "l": list(f[1].encode()), "d": list(f[2].encode()), "s": opt(f[3])}


def questions(c, n, numbers):
    """What is asked of the n:th document: (kind, paths, from, stop)."""
    if numbers: return [("get", [p], None, 0) for p in (LOOK[1], LOOK[10], LOOK[3], LOOK[6])] + ([("each", [LOOK[5]], None, -1), ("root", [], None, 0)] if n % 9 == 0 else [])
    out = [("root", [], None, 0)]
    for j, p in enumerate(LOOK):
        if c.thorough or (n + j) % 3 == 0: out.append(("each", [p], None, (-1, 1, 2, 3)[(n + j) // 3 % 4]))
        if c.thorough or (n + j) % 3 == 1: out.append(("get", [p], None, 0))
    out.append(("each", [LOOK[n % WALK], LOOK[(n // 2 + 5) % WALK]], None, -1))
    for j in range(len(FROM) if c.thorough else 3):
        out.append(("rel", [LOOK[(n + j * 7) % WALK]], [FROM[(n + j * 5) % len(FROM)]], 0))
    return out


def commands(qs):
    out = []
    for kind, p, q, stop in qs:
        xp = hx("|".join(v[0] for v in p).encode())
        if kind == "root": out.append("root\t0")
        elif kind == "each": out.append("each\t0\t%s\t%d" % (xp, stop))
        elif kind == "get": out.append("get\t0\t" + xp)
        else: out += ["rel\t0\t%s\t%s\t%d" % (xp, hx(q[0][0].encode()), m) for m in range(5)]
    return out


def record(doc, qs, ans):
    """The record for TLC of the answers, or the number of the question that has none."""
    asks, at = [], 0
    for n, (kind, p, q, stop) in enumerate(qs):
        f = ans[at:at + (5 if kind == "rel" else 1)]
        at += len(f)
        if any(v[0] in ("CRASH", "HANG", "SKIPPED") for v in f): return n
        js = [v[2] for v in p]
        if kind == "root":
            nm, ct = f[0][0].split("/") if f[0][0] != "NONE" else ("-", "-")
            asks.append({"k": kind, "seen": [opt(nm), opt(ct)]})
        elif kind == "each": asks.append({"k": kind, "p": js, "stop": stop, "hits": int(f[0][1]), "seen": shown(f[0][0])})
        elif kind == "get": asks.append({"k": kind, "p": js, "got": values(f[0])})
        else:
            cols = [v[0].split(",")[:-1] for v in f[:4]]
            walks = [w.split("}") for w in f[4][0].split("{")[1:]]
            asks.append({"k": kind, "p": js, "q": [v[2] for v in q], "hits": int(f[4][1]), "gots": [values(v) for v in zip(*cols)],
                         "in": [{"hits": int(w[1].rstrip(",")), "seen": shown(w[0])} for w in walks]})
    return {"doc": doc, "asks": asks}


def ask(c, docs, numbers, load, kind="harness", validate=True):
    qss = [questions(c, n, numbers) for n in range(len(docs))]
    groups = [[load(ev)] + commands(qs) for (ev, _), qs in zip(docs, qss)]
    recs, at = [], []
    for (ev, tl), qs, g, ans in zip(docs, qss, groups, c.run(groups, kind=kind)):
        r = record(tl, qs, ans[1:])
        name = lambda q: "%s %s%s" % (q[0], "|".join(v[0] for v in q[1]), " from there " + q[2][0][0] if q[2] else "")
        if isinstance(r, int): c.fail("lookup:%s:%s" % (tree.to_build(ev), name(qs[r])), document=tree.show(ev), question=name(qs[r]), observed=[v for v in ans if v[0] in ("CRASH", "HANG")][:1]); continue
        recs.append(r); at.append((ev, qs, name))
    if not validate: return
    for i in range(0, len(recs), 40000):
        for mm in c.validate("LookupTrace", recs[i:i + 40000], heap="12g"):
            ev, qs, name = at[i + mm[1] - 1]
            q = qs[mm[2] - 1]
            c.fail("lookup:%s:%s" % (tree.to_build(ev), name(q)), document=tree.show(ev), question=name(q), stop=q[3], answer=recs[i + mm[1] - 1]["asks"][mm[2] - 1])
    for (ev, qs, name), r in list(zip(at, recs))[5::max(1, len(at) // 2)]: c.sample({"document": tree.show(ev), "question": name(qs[-1]), "answer": str(r["asks"][-1])[:300]}, 5)


def run(c):
    c.build("harness", "harness_asan")
    build = lambda ev: "build\t0\t" + tree.to_build(ev)
    shapes = xprint.enumerate_docs(c, DOCS, [])
    ask(c, shapes, False, build)
    numbers = xprint.enumerate_docs(c, [], HOLES)
    ask(c, numbers, True, build)
    ask(c, (shapes + numbers)[::50], False, build, kind="harness_asan", validate=False)
    return c.finish(rule="in every document enumerated by DocGen, paths are looked up from the document and from each node; the nodes called back with and the values returned are judged by TLC (LookupTrace) against the specification of paths and values")
