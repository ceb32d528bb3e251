"""P16: what the commands of a pipeline make of a document."""
import os
import vf, tree, xprint, xcli
from vf import hx, unhx, show
from xprint import E, T, C, R, A, X, t_doc
from xcli import path, at, cmd

P = lambda t, s: ("P", t, s)
D = lambda s: ("D", s)
a, b, x, y, k = b"a", b"b", b"x", b"y", b"k"

NEST = [C(b"c0"), E(a), A(x, T(b"1")), E(b), T(b"t1"), X, C(b"c1"), E(b), A(x, T(b"1")), A(y, T(b"2")), E(a), T(b"t1"), X, P(b"p", b"q"), X, T(b"t3"), X]
DEEP = [D(b"html"), E(a), E(a), E(a), A(x), E(b), X, X, E(b), T(b"1"), X, X, E(b), X, X, C(b"end")]
SPACE = [E(a, None, b"urn:d"), ("N", None, b"urn:d"), ("N", b"q", b"urn:q"), E(b, b"q", b"urn:q"), A(x, T(b"1"), p=b"q", h=b"urn:q"), E(k, None, b"urn:d"), A(y, T(b"2")), X, X,
         E(b, b"q", b"urn:r"), ("N", b"q", b"urn:r"), E(k, b"q", b"urn:r"), X, X, X]
FOREST = [T(b"t0"), E(a), A(y, T(b"2")), X, E(b), E(a), X, X, C(b"c"), T(b"t9")]
BARE = [C(b"only")]
EMPTY = [T(b"just")]

PATHS = [
    path(), path(("/", "=a")), path(("//", "=a")), path(("//", "=b")), path(("//", "*")), path(("//", "node")), path(("//", "text")), path(("//", "comment")),
    path(("//", "pi")), path(("//", "=b"), ("@", "*")), path(("//", "*"), ("@", "=x")), path(("//", "=a", "pos", 1)), path(("//", "=b", "last")), path(("//", "*", "attr", "x")),
    path(("//", "*", "attreq", "y", "2")), path(("//", "=a", "child", "b")), path(("//", "=b", "nochild", "a")), path(("//", "*", "childeq", "a", "t1")), path(("//", "=b", "is", "t1")),
    path(("//", "=a"), ".."), path(("//", "=b"), ("fol", "node")), path(("//", "=b"), ("pre", "*")), path(("//", "=b"), ("anc", "*")), path(("/", "*"), ("/", "*", "pos", 2)),
    path(("//", "text", "is", "t1")), path(("//", "node", "pos", 2)), path(("//", "=zz")),
]
PICKS = [at(op, p) for op in ("select", "delete") for p in PATHS] + [at("select", path(("//", "=a")), path(("//", "=b"))), at("delete", path(("//", "=x")), path(("//", "comment")))]

NBSP, XY = b"nbsp", b"xy"
ENT = [R(NBSP), E(a), A(x, R(NBSP)), A(y, T(b"l"), R(XY), T(b"r")), T(b"u"), R(NBSP), E(b), R(XY), R(NBSP), X, T(b"v"), X, R(XY)]
NOROOT = [C(b"c"), R(NBSP), T(b"t")]
DTD = [D(b"html"), E(a), R(XY), X]
FILE = [T(b"f1"), E(b), A(x, R(XY)), T(b"f2"), X, C(b"fc")]
FORESTFILE = [D(b"f"), E(b), X, E(a), E(b), T(b"in"), X, X]
ENTITIES = [
    cmd(["delete-entity", "nbsp"], "delete-entity", name=NBSP), cmd(["delete-entity", "xy"], "delete-entity", name=XY), cmd(["delete-entity", "none"], "delete-entity", name=b"none"),
    cmd(["replace-entity", "nbsp", "R"], "replace-entity", name=NBSP, text=b"R"), cmd(["replace-entity", "xy", "<&amp;>"], "replace-entity", name=XY, text=b"<&amp;>"),
    cmd(["replace-entity", "xy", "--with-file=@f1"], "replace-file", name=XY, file=FILE), cmd(["replace-entity", "nbsp", "--with-file=@f2"], "replace-file", name=NBSP, file=FORESTFILE),
    cmd(["substitute-char-entities"], "substitute-char-entities"), cmd(["substitute-entity", "nbsp"], "substitute-entity", name=NBSP),
    at("select", path(("//", "=b"))), at("delete", path(("//", "*"), ("@", "*"))), cmd(["add-root", "r"], "add-root", name=b"r"), cmd(["add", "n(x=&xy;)=&nbsp;"], "add", text=b"n(x=&xy;)=&nbsp;"),
]
CHARS = [R(b"#65"), E(a), A(x, R(b"#x42"), T(b"m")), T(b"u"), R(b"#65"), E(b), R(b"#955"), X, R(NBSP), R(b"#128512"), X, R(b"#x7e")]
SUBST = [cmd(["substitute-char-entities"], "substitute-char-entities"), cmd(["substitute-entity", "#65"], "substitute-entity", name=b"#65"),
         cmd(["substitute-entity", "#128512"], "substitute-entity", name=b"#128512"), cmd(["substitute-entity", "65"], "substitute-entity", name=b"65"), cmd(["delete-entity", "#955"], "delete-entity", name=b"#955"),
         cmd(["replace-entity", "#x42", "Q"], "replace-entity", name=b"#x42", text=b"Q"), at("select", path(("//", "=b"))), cmd(["add-root", "r"], "add-root", name=b"r")]

ADDS = [cmd(["add", t.decode()], "add", text=t) for t in (b"n=1", b"'txt'", b"// com", b"!DOCTYPE=x a{b c}", b"?pi=v", b"a b", b"b(", b"}", b"&nbsp;", b"", b"b{c(d=1)}")]
ADDS += [cmd(["add-root", "r"], "add-root", name=b"r"), cmd(["add-root", "a"], "add-root", name=b"a"), at("delete", path(("//", "=a"))), at("delete", path()), at("select", path(("//", "=b"))), at("select", path(("//", "text"))),
         at("delete", path(("//", "node", "last"))), at("select", path(("/", "node", "pos", 1))), cmd(["delete-entity", "nbsp"], "delete-entity", name=NBSP)]
FAILS = [cmd(v, "fail") for v in (["select"], ["delete"], ["add"], ["add-root"], ["replace-entity", "nbsp"], ["for-each"], ["replace-entity", "xy", "--with-file=nosuchfile"], ["nosuchcommand"], ["--nosuchoption"])]

STATS = [cmd(["statistics"], "statistics"), at("delete", path(("//", "=b", "pos", 1))), at("select", path(("//", "=b"))), at("delete", path(("//", "*"), ("@", "=x"))), cmd(["add", "n(k='12345678901')='a longer text'"], "add", text=b"n(k='12345678901')='a longer text'"),
         cmd(["add-root", "r"], "add-root", name=b"r"), cmd(["replace-entity", "xy", "XYZ"], "replace-entity", name=XY, text=b"XYZ")]

SWEEPS = [  # name, documents, menu, commands quick, thorough, options of the load
    ("picks", [NEST, DEEP, SPACE, FOREST], PICKS, 2, 2, []),
    ("entities", [ENT, NOROOT, DTD], ENTITIES, 3, 4, []),
    ("chars", [CHARS], SUBST, 3, 5, ["--no-merge"]),
    ("adds", [NEST, DTD, FOREST, BARE, EMPTY], ADDS + PICKS[:8], 2, 4, []),
    ("statistics", [NEST, DEEP, SPACE, FOREST, ENT, BARE, DTD], STATS, 3, 4, []),
    ("fails", [DTD], FAILS + ADDS[:2], 2, 2, []),
]
OUTS = [["--compact"], [], ["--escape-newlines", "--escape-tabs"], ["--indent=0"]]
FLAGS = {"--compact": "compact", "--escape-newlines": "enl", "--escape-tabs": "et", "--escape-non-7bit": "e7"}


def generated(c):
    sw = ", ".join("[docs |-> <<%s>>, menu |-> <<%s>>, max |-> %d]" % (", ".join(map(t_doc, ds)), ", ".join(m[1] for m in menu), nt if c.thorough else nq) for _, ds, menu, nq, nt, _ in SWEEPS)
    mc = "---- MODULE MC ----\nEXTENDS PipeGen\nS == <<%s>>\n====\n" % sw
    r = c.tlc("MC", "CONSTANT Sweeps <- S\nINIT Init\nNEXT Next\nINVARIANTS Nests Bare\n", extra=mc, timeout=3600)
    if r.violated: raise vf.InfraError("specification invariant %s violated\n%s" % (r.violated, r.tail))
    return sorted((t[1:] for t in r.printed if t[0] == "RUN"), key=lambda t: (t[0], t[1], len(t[2]), t[2]))


def print_texts(c, docs, settings="fmt=xmq,compact"):
    return [unhx(g[-1][0]) for g in c.run([["build\t0\t" + tree.to_build(d), "print\t0\t" + settings] for d in docs])]


def files(c):
    d = os.path.join(c.dir, "run")
    os.makedirs(d, exist_ok=True)
    for n, t in zip(("@f1", "@f2"), print_texts(c, [FILE, FORESTFILE])): open(os.path.join(d, n), "wb").write(t)


def pipelines(c, every_asan=40):
    """Every pipeline of the sweeps: the tool prints the document that the specification arrives at."""
    runs = generated(c)
    files(c)
    c.notes["pipelines"] = len(runs)
    texts = {(w, i): t for w, s in enumerate(SWEEPS) for i, t in enumerate(print_texts(c, s[1]))}
    cases, meta = [], []
    for j, (w, i, hist, doc, ok) in enumerate(runs):
        _, docs, menu, _, _, opts = SWEEPS[w - 1]
        argv = opts + ["-"] + [x for h in hist for x in menu[h - 1][0]]
        out = OUTS[j % len(OUTS)]
        if j % 3 and SWEEPS[w - 1][0] != "fails": argv += ["to-xmq"] + out
        else: out = []
        if "statistics" in argv: doc = [["T", list(b"%d" % len(texts[w - 1, i - 1]))] if e == ["T", [0]] else e for e in doc]
        cases.append((argv, texts[w - 1, i - 1])); meta.append((doc, ok, [FLAGS[o] for o in out if o in FLAGS] + (["nomerge"] if opts else []), " ".join(argv)))
    res = xcli.run(c, cases)
    some = [j for j in range(len(cases)) if j % every_asan == 0]
    for j, r in zip(some, xcli.run(c, [cases[j] for j in some], kind="cli_asan")):
        if xcli.crashed(r): c.fail("run:" + meta[j][3], input=show(cases[j][1]), argv=cases[j][0], observed=r[0], stderr=show(r[2][-600:]))
    recs, back = [], []
    for (argv, inp), (doc, ok, flags, line), (rc, so, se) in zip(cases, meta, res):
        c.replayed += 1
        info = dict(input=show(inp), argv=argv, observed=rc, stdout=show(so), stderr=show(se[-300:]))
        if rc is None or rc < 0 or rc == 134: c.fail("run:" + line, reason="crash", **info)
        elif not ok and (rc == 0 or (so and not so.startswith(b"xmq: "))): c.fail("run:" + line, reason="expected to fail", **info)
        elif ok and rc != 0: c.fail("run:" + line, reason="failed", **info)
        elif ok: recs.append({"doc": doc, "s": list(so), "flags": flags, "again": list(so)}); back.append((line, doc, info))
    for mm in c.validate("PrintTrace", recs, heap="10g"):
        line, doc, info = back[mm[1] - 1]
        c.fail("run:" + line, reason=mm[2], expected=tree.show(tree.from_tla(doc)), **info)
    outputs(c, runs, texts, 1 if c.thorough else 4)
    for line, doc, info in back[7::max(1, len(back) // 4)]: c.sample({"pipeline": line, "document": tree.show(tree.from_tla(doc))}, 5)


TAILS = [(["to-xml"], "fmt=xml"), (["to-xml", "--omit-decl"], "fmt=xml,omit"), (["to-xml", "-o"], "fmt=xml,omit"), (["to-xml", "--compact"], "fmt=xml,compact"), (["to-json"], "fmt=json"), (["to-json", "--compact"], "fmt=json,compact"),
         (["to-html"], "fmt=html"), (["to-text"], "fmt=text"), (["to-clines"], "fmt=clines"), (["to-htmq"], "fmt=htmq"), (["to-htmq", "--compact", "--escape-non-7bit"], "fmt=htmq,compact,e7"),
         (["to-xmq", "--indent=2"], "fmt=xmq,indent=2"), (["to-xmq", "--indent=0", "--escape-newlines"], "fmt=xmq,indent=0,enl"),
         (["render-html", "--mono"], "fmt=xmq,render=html,dark"), (["render-tex", "--mono"], "fmt=xmq,render=tex,dark"), (["render-html", "--nostyle", "--color"], "fmt=xmq,render=html,raw,color,dark"), (["render-tex", "--nostyle", "--color", "--compact"], "fmt=xmq,render=tex,raw,color,dark,compact"),
         (["render-terminal", "--mono"], "fmt=xmq"), (["render-terminal", "--color", "--compact"], "fmt=xmq,render=term,color,dark,compact")]


def clean(doc):
    t = [e[0] for e in doc]
    return doc and not any(x == y == "T" for x, y in zip(t, t[1:])) and not any(len(e[3]) > 1 for e in doc if e[0] == "A") and "E" in t


def outputs(c, runs, texts, step):
    """What is printed, and where to, with every way to ask for it; documents from a file, from stdin and in xml."""
    picked = [r for r in runs if r[4] and SWEEPS[r[0] - 1][0] in ("picks", "entities", "adds") and clean(r[3])][::step]
    docs = [tree.from_tla(r[3]) for r in picked]
    tails = [TAILS[j % len(TAILS)] for j in range(len(picked))]
    want = [g[-1] for g in c.run([["build\t0\t" + tree.to_build(d), "print\t0\t" + s] for d, (_, s) in zip(docs, tails)])]
    xml = {k: v for k, v in zip(texts, print_texts(c, [SWEEPS[w][1][i] for w, i in texts], "fmt=xml"))}
    wd = os.path.join(c.dir, "run")
    for (w, i), t in texts.items(): open(os.path.join(wd, "in-%d-%d.xmq" % (w, i)), "wb").write(t)
    for (w, i), t in xml.items(): open(os.path.join(wd, "in-%d-%d.xml" % (w, i)), "wb").write(t)
    cases, meta = [], []
    for j, ((w, i, hist, doc, ok), (tail, _), f) in enumerate(zip(picked, tails, want)):
        if f[0] in ("CRASH", "HANG", "SKIPPED"): continue
        _, ds, menu, _, _, opts = SWEEPS[w - 1]
        k, body = (w - 1, i - 1), [x for h in hist for x in menu[h - 1][0]]
        source, inp = [(["-"], texts[k]), (["in-%d-%d.xmq" % k], b""), (["-i", texts[k].decode()], b""), (["--xmq", "-"], texts[k])][j % 4]
        safe = tree.from_tla(doc) and ds[i - 1] in (NEST, SPACE)
        if safe and j % 2: source, inp = [(["--xml", "-"], xml[k]), (["in-%d-%d.xml" % k], b""), (["-"], xml[k])][j // 2 % 3]
        where = ["", "print", "save-to", "no-output"][j // 2 % 4]
        to = "saved-%d" % j
        if where == "save-to": tail = tail + ["save-to", to]
        elif where: tail = tail + [where]
        cases.append((source + body + tail, inp)); meta.append((unhx(f[0]) or b"", where, to))
    for (argv, inp), (text, where, to), (rc, so, se) in zip(cases, meta, xcli.run(c, cases)):
        c.replayed += 1
        file = os.path.join(wd, to)
        saved = open(file, "rb").read() if where == "save-to" and os.path.exists(file) else b""
        if where == "save-to": good = so == b"" and saved == text
        elif where == "no-output": good = so == b""
        else: good = so == text
        if rc != 0 or not good:
            c.fail("output:" + " ".join(argv), input=show(inp), argv=argv, expected=show(text), observed=rc, stdout=show(so), saved=show(saved), stderr=show(se[-300:]))
    c.notes["outputs"] = len(cases)


def refused(c):
    """Command lines that make no sense are refused, whatever the document."""
    bad = [["to-xmq", "to-xml"], ["to-json", "render-html"], ["print", "print"], ["save-to", "s1", "print"], ["to-xmq", "--nosuch"], ["select", "//a", "extra"], ["to-xml", "--escape-tabs"], ["to-xmq", "--indent=x"],
           ["save-to"], ["save-to", "nosuchdir/file"], ["add-root", "r", "r2"], ["replace-entity", "a", "b", "c"], ["substitute-entity", "a", "b"], ["add", "a", "b"], ["delete-entity", "a", "b"], ["tokenize", "--type=nosuch"], ["render-html", "--nosuch"]]
    cases = [(o + ["-"] + b, t) for b in bad for t in (b"a=1", b"") for o in ([], ["--xmq"])] + [(["--nosuch", "-"], b"a=1"), (["nosuchfile"], b""), (["--xml", "-"], b"a=1"), (["--json", "-"], b"<a/>"), (["-"], b"a={"), (["--root=x", "nosuchfile", "to-xml"], b"")]
    for (argv, inp), r in zip(cases, xcli.run(c, cases, kind="cli_asan")):
        c.replayed += 1
        if xcli.crashed(r) or r[0] == 0 or (r[1] and b"xmq: " not in r[1]):
            c.fail("refused:" + " ".join(argv), input=show(inp), argv=argv, expected="refused", observed=r[0], stdout=show(r[1]), stderr=show(r[2][-300:]))


def run(c):
    c.build("harness", "cli", "cli_asan")
    pipelines(c)
    refused(c)
    return c.finish(rule="TLC enumerates every sequence of commands of a menu on every document of a set (XPath subset, commands on entities, adding), and computes the document each one leads to; the tool is run on each and TLC reads what it printed with the specification of the language")
