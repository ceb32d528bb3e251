"""P12: which kind of content a text is."""
import vf, tree, xprint, p03
from vf import hx, unhx, show, tla_set
from lex import B
from xprint import E, T, C, R, A, X, HOLE

SWEEPS = [
    ("markup", B("", " ", "\n\t"), B("<", "!", "html", "?xml", "--", "doctype", " ", ">", "DocType", "HTML", "x"), 4, 6),
    ("prolog", B("<!--"), B("-->", "<!--", "-", "\n", "<html", "<x>", "<!doctype html", "<!DOCTYPE x", " "), 4, 6),
    ("dashes", B("<!--"), B("-", ">", "a", "-->", "<html"), 5, 7),
    ("doctype", B("<!doctype", "<!-- c --><!doctype", "\r\n<!DOCTYPE"), B("html", " ", "\n", "x", "-", "<", ">", "1", "HtMl"), 4, 5),
    ("html", B("<", "< ", "<!--c-->\n<"), B("html", "h", "x", " ", "/>", ":", "-", "9", "_", "HTML"), 3, 4),
    ("literal", B(""), B("true", "null", "false", "t", "rue", " ", "\n", "{", ",", "x"), 4, 6),
    ("json", B("", " "), B("{", "[", '"', "1", "-", "0", "true", "}", "]", "\n", ":", "a"), 4, 5),
    ("xmq", B("", "\n"), B("a", "=", "'", "/*", "//", "&", "?xml", "!DOCTYPE", "(", "-", "_", "."), 3, 4),
    ("bom", [b"\xef\xbb\xbf"], B("<", "html", "a", "{", "}", "1", " ", "true", b"\xef", "="), 3, 4),
    ("wide", [b"", b"\xff", b"\xfe", b"\xff\xfe", b"\xfe\xff"], [b"\xff", b"\xfe", b"a", b"{", b"\x01", b"<", b" "], 3, 4),
    ("blanks", B(""), B(" ", "\t", "\r", "\n", "\x0b", "\x0c", b"\xc2\xa0", "1", "a", "<"), 4, 5),
]
WANTS = ["detect", "xmq", "htmq", "xml", "html", "json"]

MENU = [E(b"html"), E(b"true"), E(b"null"), E(b"x"), C(b"c"), C(b"<html"), ("P", b"p", b"q"), T(b"1"), A(b"A"), X]
DOCS = [("roots", [(), (("D", b"html"),), (C(b"c"),)], MENU, 3, 4)]
HOLES = [("names", [(E(b"x"), E(b"_"), A(b"_", T(HOLE)), X, X), (C(HOLE), E(b"html"), X), (E(b"html"), T(HOLE), X)], B("<html", "{", "1", "true", "-->"), 2, 3)]


def generated(c):
    rec = ", ".join("[pre |-> %s, chunks |-> %s, max |-> %d]" % (tla_set(p), tla_set(ch), nt if c.thorough else nq) for _, p, ch, nq, nt in SWEEPS)
    mc = "---- MODULE MC ----\nEXTENDS DetectGen\nS == <<%s>>\n====\n" % rec
    r = c.tlc("MC", "CONSTANT Sweeps <- S\nINIT Init\nNEXT Next\nINVARIANTS Blanks Same\n", extra=mc, timeout=3600)
    if r.violated: raise vf.InfraError("specification invariant %s violated\n%s" % (r.violated, r.tail))
    cases = {bytes(t[1]): t for t in r.printed}
    keys = sorted(cases)
    groups = [["detect\t" + hx(k)] + ["parse\t0\t%s\t1\t-\t%s" % (w, hx(k)) for w in WANTS] for k in keys]
    for k, a in zip(keys, c.run(groups)):
        t = cases[k]
        f = next((x for x in a if x[0] in ("CRASH", "HANG")), None)
        if f: c.fail("detect:" + k.hex(), text=show(k), observed=f); continue
        if a[-1][0] == "SKIPPED": continue
        c.replayed += 1
        if a[0][0] != t[2]: c.fail("detect:" + k.hex(), text=show(k), expected=t[2], observed=a[0][0]); continue
        for want, got, x in zip(WANTS, t[4], a[1:]):
            why = (unhx(x[3]) or b"").decode("latin1")
            refused = x[0] == "0" and (x[2].startswith("expected ") and x[2].endswith(" source") or "utf16" in why)
            if refused != (got == "no"):
                c.fail("as:%s:%s" % (want, k.hex()), text=show(k), wanted=want, expected=got, observed=x[:4]); continue
            if refused:
                name = {"htmq": "htmlq"}.get(want, want)
                right = "SRC: utf16 is not supported\n" if t[3] else "SRC: expected %s source\n" % name
                if why != right: c.fail("why:%s:%s" % (want, k.hex()), text=show(k), wanted=want, expected=right, observed=why)
                continue
            if x[0] == "1":
                d = t[2] if not k.startswith(b"\xef\xbb\xbf") else None
                if d and x[5] != d: c.fail("original:%s:%s" % (want, k.hex()), text=show(k), expected=d, observed=x[5])
            # reading as what it is detected to be is reading it
            if got != "html" and x[:5] != a[1][:5]: c.fail("same:%s:%s" % (want, k.hex()), text=show(k), wanted=want, expected=a[1], observed=x)
    c.notes["sweeps"] = [[s[0], s[4] if c.thorough else s[3]] for s in SWEEPS]
    for k in keys[5::max(1, len(keys) // 4)]: c.sample({"text": show(k), "type": cases[k][2], "read as": dict(zip(WANTS, cases[k][4]))}, 4)


FORMATS = [("xmq", "fmt=xmq"), ("xmq", "fmt=xmq,compact"), ("xml", "fmt=xml"), ("xml", "fmt=xml,omit"), ("json", "fmt=json"), ("html", "fmt=html")]


def name(ev):
    for e in ev:
        if e[0] == "E": return e[1]
    return b""


def written(c):
    docs = [(ev, tl) for ev, tl in xprint.enumerate_docs(c, DOCS, HOLES) if sum(1 for i, e in enumerate(ev) if e[0] == "E" and depth(ev, i) == 0) == 1
            and not any(e[0] == "T" and depth(ev, i) == 0 for i, e in enumerate(ev))]
    first = c.run([["build\t0\t" + tree.to_build(ev)] + ["print\t0\t" + st for _, st in FORMATS] for ev, _ in docs])
    outs = []
    for (ev, _), a in zip(docs, first):
        f = next((x for x in a if x[0] in ("CRASH", "HANG")), None)
        if f: c.fail("write:" + tree.to_build(ev), document=tree.show(ev), observed=f); continue
        if a[-1][0] == "SKIPPED": continue
        for (fmt, st), x in zip(FORMATS, a[1:]):
            if fmt == "html" and name(ev) != b"html": continue
            if fmt == "html" and any(e[0] in "CP" for e in ev[:1]): continue
            outs.append((ev, fmt, st, unhx(x[0]) or b""))
    got = c.run1(["detect\t" + hx(o) for _, _, _, o in outs])
    recs = [{"fmt": fmt, "s": list(o), "got": g[0], "html": name(ev) == b"html" or any(e[0] == "D" for e in ev),
             "literal": o.strip() in (b"true", b"false", b"null")} for (ev, fmt, st, o), g in zip(outs, got)]
    for mm in c.validate("DetectTrace", recs, heap="10g"):
        ev, fmt, st, o = outs[mm[1] - 1]
        c.fail("written:%s:%s" % (st, tree.to_build(ev)), reason=mm[2], document=tree.show(ev), settings=st, text=show(o), detected=mm[3], observed=got[mm[1] - 1])


def depth(ev, i):
    d = 0
    for e in ev[:i]:
        if e[0] == "E": d += 1
        if e[0] == ")": d -= 1
    return d


def run(c):
    c.build("harness")
    generated(c)
    written(c)
    return c.finish(rule="every text enumerated by DetectGen is judged and read with every expected type by the library; documents enumerated by DocGen are written in each format and what is written must be recognised, judged by TLC (DetectTrace)")
