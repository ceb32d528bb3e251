"""P14: a shell command for each node of a path."""
import os, random
import tree, xprint, xcli, p15, p16
from vf import hx, unhx, show
from xprint import E, T, C, R, A, X, HOLE
from xcli import path

P = lambda t, s: ("P", t, s)
a, b, x, y, k = b"a", b"b", b"x", b"y", b"k"
DOCS = [  # name, starts, menu, events quick, thorough
    ("shape", [(), (E(a),), (E(b), E(a))], [E(a), E(b), X, T(b"7"), T(b"u v"), R(b"#65"), R(b"lt"), C(b"3"), P(b"a", b"4"), A(a, T(b"12"))], 4, 5),
    ("attributes", [(E(k), A(a, T(b"1")), A(x, T(b"2"))), (E(k), E(b), A(a, T(b"1")), A(b, T(b"2")), A(x, T(b"3")))], [E(a), E(b), X, T(b"7"), A(y, T(b"4")), C(b"3")], 3, 4),
    ("names", [(E(k), E(b"a-b"), T(b"1"), X)], [E(b"c.d"), E(b"a-b.c"), E(b"_"), E(b"Ab9"), X, T(b"2"), T(b"; x"), R(b"#36"), R(b"nbsp"), R(b"amp")], 4, 5),
]
SHELL = [b"", b"x", b" ", b"\n", b"'", b'"', b"$(echo hit)", b"`echo hit`", b"; echo hit;", b"${a}", b"\\", b"%s", b"&", b"|cat", b"#", b"~", b"\xc3\xa5", b"\xf0\x9f\x98\x80", b"=", b">", b"-n", b"*"]
HOLES = [("texts", [(E(k), E(a), T(HOLE), X, E(b), T(HOLE), X, X), (E(k), T(HOLE), E(a), T(b"1"), R(b"#10"), T(HOLE), X, X)], SHELL, 2, 3)]
PATHS = [p for p in p15.LOOK if p[0] != "/"] + [path()]
FOCUS = [path(("//", "=k")), path(("/", "*")), path(("//", "*"))]


ATTRS = [path(("//", "*"), ("@", "*")), path(("//", "*"), ("@", "=x")), path(("//", "*"), ("@", "=a"))]


def IN(n): return ("in", n)
def BARE(n): return ("bare", n)
def LIT(t): return ("lit", t)
COMMANDS = [
    [[IN(b"a")], [IN(b".")], [IN(b"..")]], [[IN(b"b")], [BARE(b"a")]], [[BARE(b".")]], [[LIT(b"l"), IN(b"a"), LIT(b"r")], [BARE(b"b"), LIT(b"z")], [LIT(b"$"), BARE(b"..")]],
    [[LIT(b"$ {a}"), IN(b"b"), IN(b"a")]], [[BARE(b"a"), BARE(b"b")], [LIT(b"${")], ], [[LIT(b"end")]], [[IN(b".")], [IN(b".")], [BARE(b"."), IN(b"none")], [BARE(b"none")]],
]
SAFE = [[[IN(b"a-b")], [IN(b"c.d")], [IN(b"Ab9")]], [[IN(b"_")], [BARE(b"a-b")]], [[BARE(b"a-b.c"), LIT(b"/")], [IN(b"c.d"), IN(b"a-b.c")]], [[IN(b"c.d"), LIT(b"-"), IN(b"..")], [IN(b"Ab9")]]]
ENDS = ["", "", "", "; exit 3", "; false", "; kill $$"]
LATER = [["no-output"], [], ["to-xmq", "--compact", "print"], ["to-xml", "print"]]


def shell(words):
    one = {"lit": lambda t: "'%s'" % t.decode(), "in": lambda n: '"${%s}"' % n.decode(), "bare": lambda n: "${%s}" % n.decode()}
    return "printf '<%s>' . " + " ".join("".join(one[k](v) for k, v in w) for w in words)


def ask(c, docs, commands, paths, per, kind="cli", validate=True):
    texts = [unhx(g[-1][0]) for g in c.run([["build\t0\t" + tree.to_build(ev), "print\t0\tfmt=xmq"] for ev, _ in docs])]
    cases, meta = [], []
    for n, ((ev, tl), text) in enumerate(zip(docs, texts)):
        if text is None or not text.strip(): continue
        for m in range(per):
            q = n * per + m
            p, words, end, later = paths[(n * 7 + m) % len(paths)], commands[(n + m * 5) % len(commands)], ENDS[q // 3 % len(ENDS)], LATER[q // 2 % len(LATER)]
            before = [p16.PICKS[(q * 11) % len(p16.PICKS)]] if q % 5 == 4 else []
            merge = q % 2 and not any(e[0] == "R" for e in ev) and not any(e[0] == f[0] == "T" for e, f in zip(ev, ev[1:]))
            before = [v for v in before if merge and v[0][1] != "/"]
            ps = [p] + ([paths[(n * 3 + 2) % len(paths)]] if q % 7 == 6 else [])
            fe = ["for-each", "|".join(v[0] for v in ps), "--shell=" + shell(words) + end]
            head = (["-"] if merge else ["--no-merge", "-"]) + [v for f in before for v in f[0]]
            cases.append((head + fe + later, text)); meta.append((ev, tl, head, fe, later, before, ps, words))
    # Variables of the surrounding process with the same names do not count.
    got = xcli.run(c, cases, kind=kind, env={n: "stale" for n in ("a", "b", "k", "_", "a_b", "c_d", "Ab9", "none")})
    # What the rest of the command line prints without the runs.
    rest = [(m[2] + m[4], t) for (_, t), m in zip(cases, meta) if "print" in m[4]]
    plain = iter(xcli.run(c, rest))
    recs, at = [], []
    for (argv, text), (ev, tl, head, fe, later, before, ps, words), (rc, so, se) in zip(cases, meta, got):
        c.replayed += 1
        tail = next(plain)[1] if "print" in later else b""
        info = dict(document=tree.show(ev), input=show(text), argv=argv, observed=rc, stdout=show(so), stderr=show(se[-300:]))
        key = "each:%s:%s" % (tree.to_build(ev), " ".join(argv))
        if xcli.crashed((rc, so, se)): c.fail(key, reason="crash", **info); continue
        if rc != 0 or se or not so.endswith(tail): c.fail(key, reason="failed" if rc else "the document was not left as it is" if not se else "messages", **info); continue
        if not validate: continue
        recs.append({"doc": tl, "before": [CMDS[v[1]] for v in before], "p": [v[2] for v in ps], "words": [[[z, list(v)] for z, v in w] for w in words], "out": list(so[:len(so) - len(tail)])})
        at.append((key, info))
    if recs:
        for i in range(0, len(recs), 20000):
            for mm in c.validate("EachTrace", recs[i:i + 20000], heap="12g"):
                key, info = at[i + mm[1] - 1]
                c.fail(key, **info)
    for (key, info), r in list(zip(at, recs))[11::max(1, len(at) // 2)]: c.sample({"document": info["document"], "argv": info["argv"], "stdout": info["stdout"]}, 5)


CMDS = {v[1]: {"op": v[0][0], "paths": [], "name": [], "text": [], "file": []} for v in p16.PICKS}
for _op in ("select", "delete"):
    for _p in p16.PATHS: CMDS[xcli.at(_op, _p)[1]]["paths"] = [_p[2]]
CMDS[p16.PICKS[-2][1]]["paths"] = [path(("//", "=a"))[2], path(("//", "=b"))[2]]
CMDS[p16.PICKS[-1][1]]["paths"] = [path(("//", "=x"))[2], path(("//", "comment"))[2]]


def run(c):
    c.build("harness", "cli", "cli_asan")
    shapes = xprint.enumerate_docs(c, DOCS[:1], [])
    attrs = xprint.enumerate_docs(c, DOCS[1:2], [])
    names = xprint.enumerate_docs(c, DOCS[2:], [])
    texts = xprint.enumerate_docs(c, [], HOLES)
    n = 1 if c.thorough else max(1, len(shapes) // 4000)
    ask(c, shapes[::n], COMMANDS, PATHS, 4 if c.thorough else 1)
    ask(c, attrs, COMMANDS, ATTRS, 6 if c.thorough else 3)
    ask(c, names[::1 if c.thorough else max(1, len(names) // 1000)], SAFE + COMMANDS[:1], FOCUS, 3)
    ask(c, texts, COMMANDS, FOCUS, 6 if c.thorough else 2)
    ask(c, (shapes + texts)[::60], COMMANDS, PATHS, 1, kind="cli_asan", validate=False)
    return c.finish(rule="in documents enumerated by DocGen, a shell command that shows its words is run for each node of a path; TLC (EachTrace) judges the order of the runs and every byte written against the specification, and the document printed afterwards has to be the one before")
