"""P17: parsing with an invisible xml grammar."""
import os
import vf, tree, xcli
from vf import hx, unhx, show, tla_set
from xprint import t_bytes

seq = lambda xs: "<<%s>>" % ", ".join(xs)
cps = lambda t: seq(str(ord(x)) for x in t)
mark = lambda m: str(ord(m)) if m else "0"
lit = lambda t, m="": '<<"lit", %s, %s>>' % (mark(m), cps(t))
nt = lambda name, m="": '<<"nt", %s, %s>>' % (mark(m), t_bytes(name))
ins = lambda t: '<<"ins", %s>>' % cps(t)
opt, plus, star = (lambda o: lambda f: '<<"%s", %s>>' % (o, f))("opt"), (lambda f: '<<"plus", %s>>' % f), (lambda f: '<<"star", %s>>' % f)
plus2 = lambda f, s: '<<"plus2", %s, %s>>' % (f, s)
star2 = lambda f, s: '<<"star2", %s, %s>>' % (f, s)
alts = lambda *a: seq(seq(x) for x in a)
grp = lambda *a: '<<"grp", %s>>' % alts(*a)


def chars(parts, m="", not_=False):
    def p(x):
        if isinstance(x, tuple): return '<<"r", %d, %d>>' % (ord(x[0]), ord(x[1]))
        if x[0] == ":": return '<<"c", "%s">>' % x[1:]
        return '<<"s", %s>>' % cps(x)
    return '<<"set", %s, %s, %s>>' % (mark(m), "TRUE" if not_ else "FALSE", seq(p(x) for x in parts))


def rule(name, body, m="", alias=""):
    return '[name |-> %s, mark |-> %s, alias |-> %s, alts |-> %s]' % (t_bytes(name), mark(m), t_bytes(alias), body)


def style(eq=":", bar=";", sp="", quote='"', hex=False):
    return '[eq |-> %d, bar |-> %d, sp |-> %s, quote |-> %d, hex |-> %s]' % (ord(eq), ord(bar), t_bytes(sp), ord(quote), "TRUE" if hex else "FALSE")


STYLES = [style(), style("=", "|", " ", "'"), style(":", "|", "\n\t", '"', True), style("=", ";", " {c.\"{}'} ", "'", True), style(":", ";", "{}", '"')]
A1 = rule("a", alts([lit("y")]))
OPS = ["opt", "plus", "star", "plus2", "star2"]
MARKS = ["", "^", "-", "@"]
UNI = "aÅZ5٠ 𐐀𐐨ǅʰန中한𠀀\u0300\u0903\u0488Ⅰ𐅀²_-(){}[]«»!.,;'\"+=$€^©😀\u2028\ue000\u0378\n\t\xad"
CATS = "L M N P S Z C LC Lu Ll Lt Lm Lo Mn Mc Me Nd Nl No Pc Pd Ps Pe Pi Pf Po Sm Sc Sk So Zs Zl Zp Cc Cf Co Cn".split()
# name, other rules, terms, separators, operators, alphabet, quick and thorough size, length of the texts
SWEEPS = [
    ("terms", [[A1], [rule("a", alts([lit("y")]), "@")], [rule("a", alts([lit("y"), nt("b")], []), "-"), rule("b", alts([lit("x", "-")], [lit("y")]), "", "c")]],
     [lit("x"), lit("y", "-"), nt("a"), nt("a", "@"), ins("z")], [lit("y"), nt("a")], OPS, "xy", 3, 4, 3),
    ("sets", [[]], [chars(["x"]), chars([("x", "y"), "y"], "-"), chars(["x"], "", True), chars(["yx", ":L"], "^", True), chars([], "-", True), lit("x", "^"), ins("x")], [chars(["x"], "-"), chars(["xz"], "", True)], OPS, "xyz", 3, 4, 2),
    ("nested", [[]], [nt("S"), nt("S", "-"), lit("("), lit(")", "-"), lit("a"), nt("S", "@")], [], ["opt", "star"], "()a", 3, 4, 3),
    ("marks", [[rule("a", alts([nt("b", r), lit("x"), nt("b", "-")]), m, al), rule("b", alts([lit("y", "-"), ins("!")], [lit("x")], [nt("a")]), n)] for r in MARKS for m in MARKS for n in ("", "@") for al in ("", "q")],
     [nt("a", m) for m in MARKS] + [lit("x", "^"), nt("b")], [nt("b", "@")], ["plus", "plus2"], "xy", 1, 2, 4),
    ("deep", [[rule("e", alts([nt("t")], [nt("e"), lit("+"), nt("t")])), rule("t", alts([nt("f", "@")], [nt("t"), lit("*", "-"), nt("f", "-")]), "-"), rule("f", alts([lit("i")], [lit("("), nt("e"), lit(")")]))]],
     [nt("e"), nt("f"), lit("+"), nt("t", "^")], [lit("+")], ["plus2", "star2", "opt"], "i+*", 2, 3, 4),
    ("lines", [[rule("e", alts([lit("å\n")], [lit("\n", "-"), nt("e")], [lit("åx"), nt("e")]))]], [nt("e"), chars(["\n"], "-"), lit("å\nå"), chars(["x", "\n"], "", True), ins("\n")], [lit("\n")], ["plus2", "star"], "xå\n", 2, 3, 4),
]
NAMES = ["error", "ixml", "version", "_a-1", "Z9", "L", "LC", "x--", "A_Name-that-is-longer-than-all-the-0123456789-others"]
ALNUM = "abcdefghijklmnopqrstuvwxyz0123456789"
WIDE = [rule("e", alts(*[[lit(x, "-" if x in "aeiou" else "")] for x in ALNUM])), rule("q", alts([opt(lit(x)) for x in ALNUM[:4]])), rule("w", alts([lit(ALNUM * 3)], [lit(x) for x in ALNUM])), rule("t", alts([plus(nt("e"))]), "@")]
WORDS = ["&<>\"", "", "'", '"', "''", "\"'", "å", "中😀", "x", "xy", "#", "[", "}", "{", "a{b}", "\\n"]
CHARS = "".join(dict.fromkeys(UNI))


def tla_sweep(name, rest, terms, seps, ops, abc, size, length, styles=STYLES):
    return "[rest |-> {%s}, terms |-> {%s}, seps |-> {%s}, ops |-> {%s}, alphabet |-> {%s}, max |-> %d, len |-> %d, styles |-> %s]" % (
        ", ".join(seq(r) for r in rest), ", ".join(terms), ", ".join(seps), ", ".join('"%s"' % o for o in ops), ", ".join(cps(x) for x in abc), size, length, seq(styles))


def sweeps(c):
    out = [tla_sweep(n, rest, terms, seps, ops, abc, nt_ if c.thorough else nq, ln + (1 if c.thorough else 0)) for n, rest, terms, seps, ops, abc, nq, nt_, ln in SWEEPS]
    for n in NAMES: out.append(tla_sweep("names", [[rule(n, alts([lit("y")], [lit("x"), nt(n, r)]), m, a)] for m, a in (("", ""), ("@", "error"), ("", n), ("-", "x-1")) for r in ("", "-")], [nt(n), nt(n, "@"), lit("x")], [lit("x")], ["plus2"], "xy", 2 if c.thorough else 1, 3))
    out.append(tla_sweep("wide", [WIDE], [nt("e"), nt("q"), nt("w"), nt("t")], [], [], [ALNUM, ALNUM * 3, "b", "ac", "acebd", "9" * 15, "xyz" * 9], 1, 1))
    out.append(tla_sweep("chains", [[rule("a", alts([lit("x"), lit("y", "-"), r, lit("y"), nt("a", m)], [lit("x"), nt("a"), lit("y"), lit("x", "-"), nt("b")], [lit("xx")])), rule("b", alts([lit("y"), r, opt(lit("x")), lit("y"), nt("b", m)], [lit("x")]))]
                                      for r in (nt("b"), nt("b", "-"), lit("x"), opt(nt("b", "@"))) for m in ("", "-", "@")], [nt("a"), nt("b")], [], ["plus"], ["x", "y", "xyxy", "yxy", "xx"], 2, 3))
    # Every way to write the words, and every character against every category.
    for st in STYLES:
        out.append(tla_sweep("written", [[rule("a", alts(*[[lit(w)] for w in WORDS if w], [lit("&<\n\"'")], [chars(WORDS[-2:] + ["􏿿"]), nt("a")]))]], [nt("a"), nt("a", "@")] + [lit(w, m) for w in WORDS if w for m in ("", "-")] + [ins(w) for w in WORDS if w] + [chars([w, "z"]) for w in WORDS if w], [], ["opt"], [w for w in WORDS if w] + ["&<\n\"'", "􏿿{x", "nn}"], 1, 1, [st]))
    out.append(tla_sweep("categories", [[]], [chars([":" + k], "", n) for k in CATS for n in (False, True)] + [chars([":" + k, ("a", "中")]) for k in CATS if len(k) == 1], [], [], CHARS, 1, 1))
    return out


def expected(p):
    """The documents, as events, whether the text has only one derivation, and what is printed; or None."""
    if p[0] == "unspec": return None
    if p[0] == "wrong": return set(), True, "%d:%d" % tuple(p[1:]) if p[1] else None
    return {tree.from_tla(d) for d in p[1]}, p[2], "" if p[2] else "w" if len(p[1]) > 1 else None


def shape(ev):
    """An attribute without content and one with an empty text are the same."""
    return tuple(e[:3] + (tuple(k for k in e[3] if k[1]),) + e[4:] if e[0] == "A" else e for e in ev)


def replay(c, cases, flags=0, kind="harness", only=lambda e: True):
    """cases: grammar text -> [(text, expected)]."""
    work = [(g, [(t, e) for t, e in ts if only(e)]) for g, ts in cases]
    work = [(g, ts) for g, ts in work if ts]
    groups = [["\t".join(["ixmls", str(flags), hx(g)] + [hx(t) for t, _ in ts])] for g, ts in work]
    for (g, ts), a in zip(work, c.run(groups, kind=kind)):
        a, key = a[0], "ixml%d:%s" % (flags, g.hex())
        if a[0] in ("CRASH", "HANG"): c.fail(key, grammar=show(g), texts=[show(t) for t, _ in ts], observed=a); continue
        if a[0] == "SKIPPED": continue
        if a[0] != "1": c.fail(key, grammar=show(g), expected="a grammar", observed=show(unhx(a[1]))); continue
        for n, (t, e) in enumerate(ts):
            ok, doc, said = a[1 + 3 * n:4 + 3 * n]
            c.replayed += 1
            if e is None: continue
            want, one, says = e
            got = shape(tree.from_dump(doc)) if ok == "1" else None
            if flags and not one: continue
            if (got is None) != (not want) or (got is not None and got not in want):
                c.fail(key + ":" + t.hex(), grammar=show(g), text=show(t), expected=[tree.show(w) for w in sorted(want, key=str)][:3] or "refused", observed=tree.show(got) if got is not None else "refused")
            elif says is not None and said != says:
                c.fail(key + ":" + t.hex(), grammar=show(g), text=show(t), expected="printed: " + says, observed="printed: " + said)


def bad(c, grammars, kind="harness"):
    """Grammars that may be refused: nothing but that may happen."""
    groups = [["\t".join(["ixmls", f, hx(g)] + [hx(t) for t in (b"", b"x", b"xx", b"xyx", b"\xff")])] for g in grammars for f in ("0", "16")]
    for n, a in enumerate(c.run(groups, kind=kind)):
        g = grammars[n // 2]
        if a[0][0] in ("CRASH", "HANG"): c.fail("bad:" + g.hex(), grammar=show(g), observed=a[0])
        elif a[0][0] == "0" and not unhx(a[0][1]): c.fail("bad:" + g.hex(), grammar=show(g), observed="refused without a message")


SIGNS = {"x": "x", "L": "L", "s": '"y"', "l": "'yz'", "h": "#78", "P": "++", "S": "**", "i": "ixml", "v": "version"}
CONTEXTS = [  # before, after, signs, quick and thorough length
    ("x:", ".", "xsh,;()[]-+*?P@^~:.>l|", 3, 4),
    ("x:[", "].", "slhL-;~,]x", 3, 5),
    ("x:s", ".", "s+*?PSx,-|", 3, 5),
    ("x:(", ").", "s,;()?", 4, 6),
    ("", ".", "x:.-@^>=s", 4, 5),
    ("", "x:s.", "ivls.:", 4, 5),
    ("x:x,x-", "", "s-[].~", 4, 5),
]


def texts(c):
    """(grammar text, whether it is one)"""
    ctx = ", ".join("[before |-> %s, after |-> %s, signs |-> {%s}, max |-> %d]" % (t_bytes(b), t_bytes(a + "L:s."), ", ".join(str(ord(x)) for x in signs), t if c.thorough else q) for b, a, signs, q, t in CONTEXTS)
    r = c.tlc("MC", "CONSTANT Contexts <- C_\nINIT Init\nNEXT Next\nINVARIANT Report\n", extra="---- MODULE MC ----\nEXTENDS IxmlText\nC_ == <<%s>>\n====\n" % ctx, timeout=3600, heap="12g")
    if r.violated: raise vf.InfraError("specification invariant %s violated\n%s" % (r.violated, r.tail))
    return {"".join(map(chr, t[1])): t[2] for t in r.printed}


def check_texts(c, cases, kind="harness"):
    work = []
    for n, signs in enumerate(sorted(cases)):
        sp = (" ", "\n", "{c}", " {a{b}} ")[n % 4]
        work.append((sp.join(SIGNS.get(s, s) for s in signs) , cases[signs]))
    groups = [["\t".join(["ixmls", "0", hx(g.encode()), "="])] for g, _ in work]
    for (g, verdict), a in zip(work, c.run(groups, kind=kind)):
        a = a[0]
        c.replayed += 1
        if a[0] in ("CRASH", "HANG"): c.fail("grammar:" + g, grammar=g, observed=a)
        elif a[0] == "1" and verdict == "bad": c.fail("grammar:" + g, grammar=g, expected="refused", observed="taken as a grammar")
        elif a[0] == "0" and verdict == "good": c.fail("grammar:" + g, grammar=g, expected="a grammar", observed="refused: " + show(unhx(a[1])))
        elif a[0] == "0" and not unhx(a[1]): c.fail("grammar:" + g, grammar=g, observed="refused without a message")


def tool(c, cases, step):
    """The command line tool: grammar from a file, the text from a file, from stdin and from the command line."""
    wd = os.path.join(c.dir, "run")
    os.makedirs(wd, exist_ok=True)
    work = []
    for n, (g, ts) in enumerate(cases[::step]):
        ts = [x for x in ts if x[1] is not None and b"\0" not in x[0]]
        for t, (docs, one, says) in [x for x in ts if x[1][0]][n % 2:][:1] + [x for x in ts if not x[1][0]][n % 3:][:1]: work.append((n, g, t, docs, one, says))
    for n, g, t, *_ in work:
        open(os.path.join(wd, "g%d.ixml" % n), "wb").write(g)
        open(os.path.join(wd, "t%d-%s" % (n, t.hex()[:40])), "wb").write(t)
    runs = []
    for k, (n, g, t, docs, one, says) in enumerate(work):
        how = ("-i", "-", "file")[k % 3]
        if how == "-i" and (not t or t[0] == 45): how = "file"
        opts = ["--ixml=g%d.ixml" % n] + (["--ixml-all-parses"] if one and k % 5 == 0 else []) + (["--ixml-try-to-recover"] if docs and k % 7 == 0 else [])
        out = (["to-xmq", "--compact"], ["to-xml"], [])[k // 3 % 3]
        runs.append((opts + {"-i": ["-i", t.decode()], "-": ["-"], "file": ["t%d-%s" % (n, t.hex()[:40])]}[how] + out, t if how == "-" else b""))
    many = [(r, w, d) for r, w in zip(runs, work) for d in sorted(w[3], key=str)]
    fmt = lambda argv: "fmt=xml" if argv[-1] == "to-xml" else "fmt=xmq,compact" if argv[-1] == "--compact" else "fmt=xmq"
    texts, want = {}, c.run([["build\t0\t" + tree.to_build(d), "print\t0\t" + fmt(r[0])] for r, w, d in many])
    for (r, w, d), a in zip(many, want): texts.setdefault(id(w), set()).add(unhx(a[-1][0]))
    for (argv, inp), w, (rc, so, se), ra in zip(runs, work, xcli.run(c, runs), xcli.run(c, runs, kind="cli_asan")):
        n, g, t, docs, one, says = w
        c.replayed += 1
        info = dict(grammar=show(g), text=show(t), argv=argv, observed=rc, stdout=show(so), stderr=show(se[-300:]))
        warned = b"ambiguous" in se
        if rc is None or rc < 0 or rc == 134: c.fail("tool:" + " ".join(argv), reason="crash", **info)
        elif xcli.crashed(ra): c.fail("tool:" + " ".join(argv), reason="crash", asan=show(ra[2][-600:]), **info)
        elif not docs and (rc == 0 or (says and not so.startswith(b"ixml:%s: " % says.encode()))): c.fail("tool:" + " ".join(argv), expected="refused " + str(says), **info)
        elif docs and (rc != 0 or so not in texts[id(w)]): c.fail("tool:" + " ".join(argv), expected=sorted(map(show, texts[id(w)]))[:3], **info)
        elif docs and says is not None and warned != (says == "w"): c.fail("tool:" + " ".join(argv), expected="a warning" if says == "w" else "no warning", **info)
    c.notes["tool"] = len(runs)
    for argv, inp in [(["--ixml=nosuch.ixml", "-i", "x"], b""), (["--ixml=g%d.ixml" % work[0][0], "nosuchfile"], b"")]:
        r = xcli.run(c, [(argv, inp)], kind="cli_asan")[0]
        if xcli.crashed(r) or r[0] == 0: c.fail("tool:" + " ".join(argv), expected="refused", observed=r[0], stderr=show(r[2][-300:]))


def run(c):
    c.build("harness", "harness_asan", "cli", "cli_asan")
    mc = "---- MODULE MC ----\nEXTENDS IxmlGen\nS_ == <<%s>>\n====\n" % ", ".join(sweeps(c))
    r = c.tlc("MC", "CONSTANT Sweeps <- S_\nINIT Init\nNEXT Next\nINVARIANT Report\n", extra=mc, timeout=3600, heap="12g")
    if r.violated: raise vf.InfraError("specification invariant %s violated\n%s" % (r.violated, r.tail))
    cases, refusable = {}, set()
    for t in r.printed:
        if t[0] == "BAD": refusable.add(bytes(t[1]))
        else: cases[bytes(t[1])] = sorted((bytes(x[0]), expected(x[1])) for x in t[2])
    cases = sorted(cases.items(), key=lambda x: (len(x[0]), x[0]))
    refusable = sorted(refusable)
    c.notes["grammars"] = [len(cases), len(refusable)]
    signs = texts(c)
    c.notes["texts of grammars"] = {v: sum(1 for x in signs.values() if x == v) for v in ("good", "tolerable", "bad")}
    check_texts(c, signs)
    check_texts(c, {k: signs[k] for k in sorted(signs)[::11]}, kind="harness_asan")
    replay(c, cases)
    tool(c, cases, 5 if c.thorough else 47)
    replay(c, cases if c.thorough else cases[::2], flags=16, only=lambda e: e is not None and e[1])
    replay(c, cases[::(3 if c.thorough else 29)], kind="harness_asan")
    replay(c, [(g, [(t, None) for t, _ in ts]) for g, ts in cases[7::(5 if c.thorough else 97)]], flags=32, kind="harness_asan")
    bad(c, refusable if c.thorough else refusable[::3])
    bad(c, refusable[::29] + [g for g, _ in cases[::67]], kind="harness_asan")
    for g, ts in cases[5::max(1, len(cases) // 4)]: c.sample({"grammar": show(g), "texts": [show(t) for t, e in ts if e and e[0]][:5]}, 4)
    return c.finish(rule="every grammar enumerated by IxmlGen is written as text and parses every text over its alphabet; the document has to be one of the documents the specification derives, and a text without derivation has to be refused")
