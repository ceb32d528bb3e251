"""P23: what the stylesheets make of documents."""
import os
import vf, tree, xprint, xcli
from vf import hx, unhx, show
from xprint import E, T, C, R, A, X, t_doc, t_bytes
from xcli import path

P = lambda t, s: ("P", t, s)
XSL = b"http://www.w3.org/1999/XSL/Transform"
a, b, x, y, k, o = b"a", b"b", b"x", b"y", b"k", b"o"


def I(n, *attrs): return (E(n.encode(), b"xsl", XSL),) + tuple(A(k.encode(), *(v if isinstance(v, tuple) else (T(v),))) for k, v in attrs)
def sheet(*ev): return (E(b"stylesheet", b"xsl", XSL), ("N", b"xsl", XSL), A(b"version", T(b"1.0"))) + tuple(e for b in ev for e in b)
def tmpl(m): return I("template", ("match", m))


# Every path that is written in the stylesheets: its text, the document (1 is the one that is transformed), alternatives.
TABLE = {}
def p(*alts, doc=1, pre=b""):
    t = pre + b"|".join(q[0].encode() for q in alts)
    TABLE[t] = "[t |-> %s, doc |-> %d, alts |-> <<%s>>]" % (t_bytes(t), doc, ", ".join("[p |-> %s, rel |-> %s]" % (q[1], "FALSE" if q[0].startswith("/") or doc > 1 else "TRUE") for q in alts))
    return t


rel = lambda *s: path(*s, rel=True)
ROOT, SELF, UP = p(path()), p(rel(".")), p(rel(".."))
PA, PB, PK, ALL, TEXT, NODE, COMMENT = (p(rel(("/", t))) for t in ("=a", "=b", "=k", "*", "text", "node", "comment"))
ATTRS, AX, ANY = p(rel(("@", "*"))), p(rel(("@", "=x"))), p(rel(("@", "*")), rel(("/", "node")))
DEEPB, DEEP, ALLX, AB, BB = p(path(("//", "=b"))), p(path(("//", "*"))), p(path(("//", "*"), ("@", "=x"))), p(rel(("/", "=a"), ("/", "=b"))), p(rel(("/", "=b", "attr", "x")))
SECOND, LAST, NEXT, ROOTA = p(rel(("/", "*", "pos", 2))), p(rel(("/", "=b", "last"))), p(rel(("fol", "*"))), p(path(("/", "=a")))
OTHER, OTHERS = p(path(("//", "=k")), doc=2, pre=b"document('other')"), p(path(("/", "*"), ("/", "node")), doc=2, pre=b"document('other')")

DOCS = [
    [E(a), A(x, T(b"1")), T(b"t"), E(b), T(b"u v"), X, C(b"c"), E(b), A(x, T(b"2")), A(y, T(b"3")), E(k), T(b"w"), X, X, P(b"p", b"q"), X],
    [E(b), E(a), E(b), A(x, T(b"n\nm")), X, E(b), T(b" "), X, X, E(k), A(y, T(b"i's")), T(b"5"), X, X],
    [C(b"first"), E(a), X, E(b), E(a), T(b"\xc3\xa5<&"), X, X],
]
OTHERDOC = [E(o), E(k), A(x, T(b"9")), T(b" k1 "), X, T(b"m"), E(k), T(b"k\n2"), X, X]

VAL = [I("value-of", ("select", v)) + (X,) for v in (SELF, AX, PB)]
COPY = [I("copy-of", ("select", v)) + (X,) for v in (SELF, ANY, DEEPB)]
APPLY = [I("apply-templates") + (X,), I("apply-templates", ("select", PB)) + (X,), I("apply-templates", ("select", ANY)) + (X,)]
END = (X,)
NEW = lambda m: (X,) + tmpl(m)

SWEEPS = [  # name, starts, blocks, blocks quick, thorough, documents, stylesheets by name, other documents, parameters, all, every n-th of the longest quick, thorough
    ("bodies", [sheet(tmpl(ROOT)), sheet(tmpl(PB)), sheet(tmpl(ANY), I("copy"), I("apply-templates", ("select", ANY)), (X, X, X), tmpl(PB))],
        VAL + COPY + APPLY + [(E(o),), (A(x, T(b"l{@x}r")),), (A(y, T(b"1"), R(b"#10"), T(b"{{2}}")),), END, (T(b"t "),), (R(b"#10"),), (T(b" \n "),), I("for-each", ("select", PB)), I("for-each", ("select", ALL)),
        I("if", ("test", AX)), I("copy"), I("text"), I("comment"), I("attribute", ("name", b"n{@y}")), I("element", ("name", b"e"))], 3, 4, DOCS, [], [], [()], False, 12, 20),
    ("rules", [sheet(tmpl(m)) for m in (ROOT, PB, ALL, TEXT, ANY, NODE)],
        [(E(o),), END, (T(b"t"),), APPLY[0], APPLY[2], I("copy"), VAL[0]] + [NEW(m) for m in (PB, PA, ALL, TEXT, ATTRS, AX, AB, BB, COMMENT, DEEPB, ROOTA, ANY)], 3, 4, DOCS, [], [], [()], False, 20, 40),
    ("paths", [sheet(tmpl(ROOT))], [(E(o),), END] + [I(i, ("select", v)) + (X,) for i in ("value-of", "copy-of") for v in (DEEP, ALLX, AB, ROOTA, SECOND, LAST, NEXT, UP, OTHER, OTHERS)] +
        [I("for-each", ("select", v)) for v in (DEEPB, DEEP, ALLX, OTHERS, SECOND)] + VAL[:1], 3, 4, DOCS, [], [OTHERDOC], [()], False, 8, 20),
    ("choices", [sheet(tmpl(ALL), I("choose"), I("when", ("test", AX)))], [(X,) + I("when", ("test", PB)), (X,) + I("otherwise"), (T(b"1"),), (T(b"2"),), (E(o),), END, APPLY[0]], 5, 6, DOCS, [], [], [()], False, 16, 20),
    ("included", [sheet(I("include", ("href", b"inc")) + (X,), tmpl(m)) for m in (ROOT, PB)] + [sheet(I("import", ("href", b"imp")) + (X,), tmpl(m)) for m in (ROOT, PB, NODE)] + [sheet(I("import", ("href", b"both")) + (X,), tmpl(ALL))],
        [(E(o),), END, (T(b"t"),), APPLY[0], APPLY[2], VAL[0], NEW(PB), NEW(ALL), NEW(TEXT), I("call-template", ("name", b"named")) + (X,), (X,) + I("include", ("href", b"late"))], 3, 4, DOCS,
        [(b"inc", sheet(tmpl(PB), (E(b"inc"),), APPLY[2], (R(b"#10"), T(b"i"), X, X), I("template", ("name", b"named")), (T(b"named"), R(b"#33"), X))),
         (b"imp", sheet(tmpl(PB), (E(b"imp"), X, X), tmpl(TEXT), (T(b"["),) + VAL[0] + (T(b"]"), X), tmpl(ALL), (E(b"impall"),) + APPLY[0] + (X, X))),
         (b"late", sheet(tmpl(PA), (E(b"late"),) + APPLY[2], (X, X), tmpl(TEXT), (T(b"."), X))),
         (b"both", sheet(I("import", ("href", b"imp")) + (X,), tmpl(PB), (E(b"both"),) + APPLY[0], (X, X), I("include", ("href", b"inc")) + (X,)))], [], [()], False, 4, 8),
]
TEXTS = [b"", b"v", b"it's", b'"q"', b" a  b ", b"<&>", b"=1", b"{x}", b"\xc3\xa5\n", b"//b", b"$p", b"n\n"]
PARAMS = [I("param", ("name", b"p")) + (X,), I("param", ("name", b"p")) + (T(b"default"), X), I("param", ("name", b"p"), ("select", DEEPB)) + (X,), I("param", ("name", b"p")) + (X,) + I("param", ("name", b"q")) + (T(b"Q"), X)]
GIVEN = [()] + [((b"p", "s", t),) for t in TEXTS] + [((b"p", "n", v),) for v in (DEEPB, ALLX, ROOT)] + [((b"q", "s", b"1"), (b"p", "s", b"2")), ((b"p", "s", b"1"), (b"p", "s", b"2")), ((b"none", "s", b"1"),), ((b"p", "n", DEEPB), (b"q", "n", ROOTA))]
SWEEPS.append(("params", [sheet(v, tmpl(ROOT)) for v in PARAMS], [(E(o),), END, I("value-of", ("select", b"$p")) + (X,), I("copy-of", ("select", b"$p")) + (X,), I("value-of", ("select", b"$q")) + (X,), (A(x, T(b"{$p}")),), I("if", ("test", b"$p")), (T(b"t"),)], 3, 4, DOCS[:1], [], [], GIVEN, False, 1, 4))
SWEEPS.append(("given", [sheet(v, tmpl(ROOT), (E(o), A(x, T(b"{$p}"))), I("copy-of", ("select", b"$p")), (X,)) for v in PARAMS], [END], 1, 1, DOCS[:2], [], [], GIVEN, True, 1, 1))
SWEEPS.append(("chain", [sheet(tmpl(ROOT)), sheet(tmpl(PB)), sheet(tmpl(ANY), I("copy"), I("apply-templates", ("select", ANY)), (X, X, X), tmpl(PB))], [(E(o),), END, NEW(PA)] + VAL[:2] + COPY[:2] + APPLY, 3, 4, DOCS, [], [], [()], False, 3, 4))
FIRST = {"chain": [sheet(tmpl(ROOT), (E(b), T(b"\n"),) + I("copy-of", ("select", ANY)) + (X, X, X)), sheet(tmpl(ANY), I("copy"), I("apply-templates", ("select", ANY)), (X, X, X), tmpl(COMMENT), (E(a), A(x, T(b"{.}"))) + VAL[0] + (X,))]}
FORMS = [("fmt=xmq", "xslq"), ("fmt=xmq,compact", "xslq"), ("fmt=xml", "xslt")]


def t_given(g): return "<<%s>>" % ", ".join('[name |-> %s, kind |-> "%s", text |-> %s]' % (t_bytes(n), k, t_bytes(t)) for n, k, t in g)


def generated(c):
    sw = ", ".join("[pre |-> <<%s>>, menu |-> <<%s>>, max |-> %d, docs |-> <<%s>>, mods |-> <<%s>>, more |-> <<%s>>, given |-> <<%s>>, all |-> %s, every |-> %d, first |-> <<%s>>]" % (
        ", ".join(map(t_doc, pre)), ", ".join(map(t_doc, menu)), nt if c.thorough else nq, ", ".join(map(t_doc, docs)), ", ".join("[href |-> %s, ev |-> %s]" % (t_bytes(h), t_doc(close(ev))) for h, ev in mods),
        ", ".join(map(t_doc, more)), ", ".join(map(t_given, given)), "TRUE" if al else "FALSE", et if c.thorough else eq, ", ".join(t_doc(close(z)) for z in FIRST.get(name, []))) for name, pre, menu, nq, nt, docs, mods, more, given, al, eq, et in SWEEPS)
    mc = "---- MODULE MC ----\nEXTENDS XsltGen\nS == <<%s>>\nT == <<%s>>\n====\n" % (sw, ", ".join(TABLE[t] for t in sorted(TABLE)))
    r = c.tlc("MC", "CONSTANT Sweeps <- S\nCONSTANT Table <- T\nINIT Init\nNEXT Next\nINVARIANT Says\n", extra=mc, timeout=3600)
    if r.violated: raise vf.InfraError("specification invariant %s violated\n%s" % (r.violated, r.tail))
    return sorted((t[1:] for t in r.printed if t[0] == "RUN"), key=lambda t: (t[0], len(t[1]), str(t)))


def close(ev): return tuple(ev) + (X,) * (sum(e[0] == "E" for e in ev) - sum(e == X for e in ev))


def written(c, docs, forms):
    return [unhx(g[-1][0]) for g in c.run([["build\t0\t" + tree.to_build(d), "print\t0\t" + f] for d, f in zip(docs, forms)])]


def arguments(given):
    out = {}
    return ["--%s=%s=%s" % ("stringparam" if k == "s" else "param", n.decode(), t.decode()) for n, k, t in given]


def fails(c, wd):
    """What cannot be applied is refused, and nothing is printed as if it had been."""
    style = lambda *ev: ("xmq", close(sheet(*ev)))
    bad = {"none": None, "notxmq": b"x{", "empty": b"", "comment": b"// c", "text": b"'t'", "notxsl": b"a{b}", "other": b"xsl:stylesheet(xmlns:xsl = urn:x)", "badxml": b"<xsl:stylesheet", "json": b'{"a":1}',
           "path": style(tmpl(ROOT), I("value-of", ("select", b"//["))), "include": style(I("include", ("href", b"nosuchfile"))), "import": style(I("import", ("href", b"notxmq"))), "nohref": style(I("include")),
           "stop": style(tmpl(ROOT), I("message", ("terminate", b"yes")) + (T(b"m"), X), (E(o),)), "loop": style(tmpl(ROOT), I("apply-templates", ("select", ROOT)))}
    good = style(I("param", ("name", b"p")) + (X,), tmpl(ROOT), (E(o),), I("value-of", ("select", b"$p")))
    for n, t in [("good", good)] + list(bad.items()):
        if isinstance(t, tuple): t = written(c, [t[1]], ["fmt=xmq"])[0]
        if t is not None: open(os.path.join(wd, n), "wb").write(t)
    tails = [[], ["to-xml"], ["to-json"], ["to-html"], ["to-text"], ["to-clines"], ["statistics"], ["select", "//b"], ["delete", "//b"], ["add", "z"], ["add-root", "z"], ["transform", "good"], ["substitute-char-entities"], ["replace-entity", "e", "v"], ["no-output"], ["for-each", "//b", "--shell=true"]]
    cases = [["-", "transform", n] + t for n in bad for t in tails] + [["-", "transform"] + a + t for t in tails for a in ([], ["--stringparam=p=1"], ["--stringparam=p"], ["--param=p=//["] + ["good"], ["good", "--stringparam=p='\""], ["good", "--nosuch"], ["good", "good"])]
    cases += [["-", "select", "//a", "transform", "stop", "transform", "good"], ["-", "transform", "good", "transform", "stop"]]
    for kind in ("cli", "cli_asan"):
        use = cases if kind == "cli" else cases[::3]
        for argv, r in zip(use, xcli.run(c, [(v, b"a{b=1 c}") for v in use], kind=kind)):
            c.replayed += 1
            info = dict(argv=argv, observed=r[0], stdout=show(r[1][:300]), stderr=show(r[2][-300:]))
            if xcli.crashed((r[0], r[1], b"" if "loop" in argv else r[2])): c.fail("xslt:" + " ".join(argv), reason="crash", **info)
            elif r[0] == 0 or (r[1] and not r[1].startswith(b"xmq: ")): c.fail("xslt:" + " ".join(argv), reason="expected to fail", **info)


def run(c):
    c.build("harness", "cli", "cli_asan")
    runs = generated(c)
    c.notes["stylesheets"] = len(runs)
    wd = os.path.join(c.dir, "run")
    os.makedirs(wd, exist_ok=True)
    # What is loaded by name: the included stylesheets and the other document, in every form.
    named = [(h, ev) for s in SWEEPS for h, ev in s[6]] + [(b"other", OTHERDOC)]
    for f, (form, _) in enumerate(FORMS):
        os.makedirs(os.path.join(wd, "form%d" % f), exist_ok=True)
        for (h, ev), t in zip(named, written(c, [close(ev) if h != b"other" else ev for h, ev in named], [form] * len(named))): open(os.path.join(wd, "form%d" % f, h.decode()), "wb").write(t)
    sheets = [tree.from_tla(r[1]) for r in runs]
    forms = [j % 3 for j in range(len(runs))]
    texts = written(c, sheets, [FORMS[f][0] for f in forms])
    for j, z in enumerate(FIRST["chain"]): open(os.path.join(wd, "first%d.xslq" % j), "wb").write(written(c, [close(z)], ["fmt=xmq"])[0])
    inputs = {(w, i): t for w, s in enumerate(SWEEPS) for i, t in enumerate(written(c, s[5], ["fmt=xmq"] * len(s[5])))}
    cases, meta = [], []
    for j, ((w, _, i, g, doc), ev, f, t) in enumerate(zip(runs, sheets, forms, texts)):
        name, given = "s%d.%s" % (j, FORMS[f][1]), SWEEPS[w - 1][8][g - 1]
        # Names of other files are those of a folder in one of the forms.
        for h, _ in named: t = t.replace(b"'" + h + b"'", b"'form%d/%s'" % (j // 3 % 3, h)).replace(b"href=" + h, b"href=form%d/%s" % (j // 3 % 3, h)).replace(b'href="%s"' % h, b'href="form%d/%s"' % (j // 3 % 3, h)).replace(b"href = " + h, b"href = form%d/%s" % (j // 3 % 3, h))
        open(os.path.join(wd, name), "wb").write(t)
        args = arguments(given)
        argv = ["-"] + [v for q in range(len(FIRST.get(SWEEPS[w - 1][0], []))) for v in ("transform", "first%d.xslq" % q)] + ["transform"] + (args + [name] if j % 2 else [name] + args)
        out = [[], ["to-xmq", "--compact"]][j // 2 % 2]
        cases.append((argv + out, inputs[w - 1, i - 1])); meta.append((doc, ["compact"] if out else [], t))
    res = xcli.run(c, cases)
    some = list(range(0, len(cases), 40))
    for j, r in zip(some, xcli.run(c, [cases[j] for j in some], kind="cli_asan")):
        if xcli.crashed(r): c.fail("xslt:%s:%s" % (" ".join(cases[j][0]), show(meta[j][2])), input=show(cases[j][1]), argv=cases[j][0], stylesheet=show(meta[j][2]), observed=r[0], stderr=show(r[2][-600:]))
    recs, back = [], []
    for (argv, inp), (doc, flags, sty), (rc, so, se) in zip(cases, meta, res):
        c.replayed += 1
        key, info = "xslt:%s:%s:%s" % (" ".join(argv[3:] if argv[2].startswith("s") else argv[2:]), show(sty), show(inp)), dict(input=show(inp), argv=argv, stylesheet=show(sty), observed=rc, stdout=show(so), stderr=show(se[-300:]))
        if rc is None or rc < 0 or rc == 134: c.fail(key, reason="crash", **info)
        elif rc != 0 or se: c.fail(key, reason="failed", expected=tree.show(tree.from_tla(doc)), **info)
        elif not doc:
            if so: c.fail(key, reason="expected nothing", **info)
        else: recs.append({"doc": doc, "s": list(so), "flags": flags, "again": list(so)}); back.append((key, doc, info))
    for mm in c.validate("PrintTrace", recs, heap="10g"):
        key, doc, info = back[mm[1] - 1]
        c.fail(key, reason=mm[2], expected=tree.show(tree.from_tla(doc)), **info)
    fails(c, wd)
    for key, doc, info in back[7::max(1, len(back) // 4)]: c.sample({"stylesheet": info["stylesheet"], "input": info["input"], "result": tree.show(tree.from_tla(doc))}, 5)
    return c.finish(rule="TLC (XsltGen) generates stylesheets with the document that each makes of an input; they are written in xmq, compact xmq and xml, the tool applies them, and TLC (PrintTrace) reads what it prints and compares it with the document of the specification")
