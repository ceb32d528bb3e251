"""P18: log lines and quotes on a single line."""
import random
import tree, xprint, xcli
import vf
from vf import hx, unhx, show
from xprint import E, T, C, R, A, X, HOLE, t_bytes

P = lambda t, s: ("P", t, s)
D = lambda s: ("D", s)
a, b, x = b"a", b"b", b"x"
CHUNKS = [b"a", b" ", b"\n", b"'", b'"', b"\t", b"\r", b"=", b"{", b"}", b"(", b"/", b"&", b"\\", b"\xc3\xa5", b"\x01"]
FEW = [b"1", b"'", b"\n", b" b", b"(", b"/*", b";"]
MARK = {"keys": "{", "value": "=", "text": ""}
SWEEPS = [  # names, keys, chunks, length of a value quick, thorough, keys per line quick, thorough, single values
    ([b"car"], [b"k"], CHUNKS, 3, 4, 1, 1, True),
    ([b"car", b"xmq.cli"], [b"k"], CHUNKS, 2, 3, 1, 1, False),
    ([b"n"], [b"a", b"b-c", b"d.e"], FEW, 1, 2, 3, 3, False),
]
DOCS = [  # documents for xmqLineDoc
    ("shape", [(), (E(a),)], [E(a), E(b), X, T(b"7"), T(b"u v"), T(b"l\nm"), C(b"3"), C(b"c\nd"), P(b"p", b"4"), A(x, T(b"1\n2"))], 4, 5),
    ("quotes", [(E(a), T(HOLE), X), (E(a), A(x, T(HOLE)), E(b), T(HOLE), X, X)], None, 0, 0),
]
BIG = [1022, 1023, 1024, 1025, 2047, 2048]
HUGE = [4095, 4096, 5000, 70000]  # only run


def calls(c):
    sw = ", ".join("[names |-> <<%s>>, keys |-> <<%s>>, chunks |-> <<%s>>, len |-> %d, max |-> %d, single |-> %s]" % (
        ", ".join(map(t_bytes, n)), ", ".join(map(t_bytes, k)), ", ".join(map(t_bytes, ch)), lt if c.thorough else lq, mt if c.thorough else mq, "TRUE" if s else "FALSE") for n, k, ch, lq, lt, mq, mt, s in SWEEPS)
    mc = "---- MODULE MC ----\nEXTENDS LogGen\nS == <<%s>>\n====\n" % sw
    r = c.tlc("MC", "CONSTANT Sweeps <- S\nINIT Init\nNEXT Next\nINVARIANT Grows\n", extra=mc, timeout=3600)
    if r.violated: raise vf.InfraError("specification invariant %s violated\n%s" % (r.violated, r.tail))
    B = bytes
    return sorted((B(t[1]), MARK[t[2]], [(B(k), B(v)) for k, v in t[3]]) for t in r.printed if t[0] == "CALL")


def large(sizes=BIG):
    out = []
    for n in sizes:
        out += [(b"n", "{", [(b"k", b"v" * n), (b"m", b"z" * (n - 1) + b"\n")]), (b"n", "=", [(b"", b" y" * (n // 2))])]
        if n < 1026 or sizes is HUGE: out += [(b"n", "{", [(b"k", b"q'\n" * (n // 3)), (b"l", b"1"), (b"k", b"w" * n)])]
    return out


def line(human, way, call):
    name, mark, kvs = call
    f = ["line", str(human), str((4 if mark == "" else 2 + way if mark == "=" else way)), hx(name + mark.encode())]
    if mark == "{": f += [hx(v) for k, t in kvs for v in (k + b"=", t)]
    elif mark == "=": f += [hx(b""), hx(kvs[0][1])]
    return "\t".join(f)


def rec(call): return {"name": list(call[0]), "mark": {v: k for k, v in MARK.items()}[call[1]], "kvs": [[list(k), list(v)] for k, v in call[2]]}


def ask(c, lines, recs, keys, kind="harness", validate=True):
    use = []
    for l, r, k, got in zip(lines, recs, keys, c.run([[v] if isinstance(v, str) else v for v in lines], kind=kind)):
        c.replayed += 1
        f = got[-1]
        if any(v[0] in ("CRASH", "HANG") for v in got): c.fail("log:" + k, call=k, observed=[v for v in got if v[0] in ("CRASH", "HANG")][0]); continue
        if any(v[0] == "SKIPPED" for v in got): continue
        s = unhx(f[0])
        if s is None: c.fail("log:" + k, call=k, observed="nothing"); continue
        use.append((dict(r, s=list(s)), k, s))
    if not validate: return
    for i in range(0, len(use), 40000):
        for mm in c.validate("LogTrace", [u[0] for u in use[i:i + 40000]], heap="10g"):
            r, k, s = use[i + mm[1] - 1]
            c.fail("log:" + k, call=k, line=show(s), reason=mm[2])
    for r, k, s in use[3::max(1, len(use) // 2)]: c.sample({"call": k[:200], "line": show(s)[:300]}, 6)


def logs(c):
    """Every line that the tool logs is a line of xmq."""
    texts = [b"a=1", b"a{b='x y' c}", b"'it''s'", b"a=", b"{'a':[1,2]}", b"<a>b</a>", b"//c", b"'''\nx'''"]
    cmds = [[], ["to-json"], ["select", "//b"], ["delete", "//c[.='it']"], ["add", "x='a\nb'"], ["replace-entity", "e", "'v'\n"], ["to-xml"], ["nosuch"], ["render-html"], ["statistics"]]
    cases = [((["--debug"] if j % 2 else ["--verbose"]) + ["--log-xmq", "-"] + m, t) for j, t in enumerate(texts) for m in cmds]
    cases += [(["--debug", "-lx", "-i", t.decode()] + m, b"") for t in texts for m in cmds]
    recs, keys, lines = [], [], set()
    for (argv, t), (rc, so, se) in zip(cases, xcli.run(c, cases)):
        c.replayed += 1
        if xcli.crashed((rc, so, se)): c.fail("logs:" + " ".join(argv), argv=argv, input=show(t), observed=rc); continue
        for l in se.split(b"\n"):
            if l.startswith(b"xmq") and b"=" in l and not l.startswith(b"xmq:") and l not in lines:
                lines.add(l)
                recs.append({"k": "text", "s": list(l)}); keys.append((" ".join(argv), show(l)))
    for mm in c.validate("LogTrace", recs):
        c.fail("logs:%s:%s" % keys[mm[1] - 1], argv=keys[mm[1] - 1][0], line=keys[mm[1] - 1][1], reason=mm[2])
    c.notes["log_lines"] = len(recs)


def run(c):
    c.build("harness", "harness_asan", "cli")
    cs = calls(c) + large()
    cs = [v for v in cs if v[1] or b"%" not in v[0]]
    cs = [v for v in cs if v[1] or not v[0].endswith((b"=", b"{"))]
    c.notes["calls"] = len(cs)
    show_call = lambda v: "%s%s %s" % (show(v[0]), v[1], " ".join("%s=%s" % (show(k), show(t)) for k, t in v[2]))
    ls, rs, ks = [], [], []
    for j, v in enumerate(cs):
        ls.append(line(0, j % 2, v)); rs.append({"k": "line", "call": rec(v)}); ks.append(show_call(v))
        if j % 3 == 0 or len(v[2]) > 1: ls.append(line(1, j % 2, v)); rs.append({"k": "human", "call": rec(v)}); ks.append("human " + show_call(v))
        if v[1] == "=": ls.append("quote\t" + hx(v[2][0][1])); rs.append({"k": "quote", "t": list(v[2][0][1])}); ks.append("quote " + show(v[2][0][1]))
    ask(c, ls, rs, ks)
    ml = [l for v in large() + large(HUGE) for l in (line(0, 0, v), line(1, 1, v))]
    ask(c, ls[::20] + ml, rs[::20] + [{}] * len(ml), ks[::20] + ["large %d" % i for i in range(len(ml))], kind="harness_asan", validate=False)
    docs = xprint.enumerate_docs(c, DOCS[:1], [("quotes", DOCS[1][1], [b"a", b"\n", b"'", b" ", b"\t", b"&"], 2, 3)])
    docs = docs[::1 if c.thorough else 4]
    ls = [["build\t0\t" + tree.to_build(ev), "linedoc\t0"] for ev, _ in docs]
    ask(c, ls, [{"k": "doc", "doc": tl} for _, tl in docs], ["doc " + tree.show(ev) for ev, _ in docs])
    ask(c, ls[::40], [{}] * len(ls[::40]), ["doc %d" % i for i in range(len(ls[::40]))], kind="harness_asan", validate=False)
    logs(c)
    return c.finish(rule="TLC enumerates the calls (LogGen) and the documents; each is logged, and TLC (LogTrace) reads the line as xmq and compares the document that it describes with the names and values that were given")
