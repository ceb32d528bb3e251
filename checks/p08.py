"""P08: xml and xmq are interchangeable."""
import vf, tree, xprint, xread, p03
from vf import hx, unhx, show
from xprint import E, T, C, R, A, X, HOLE, B

STR = B("a", " ", "\n", "\t", "\r", "&", "<", ">", '"', "'", "]]>", "å")
COM = B("a", "-", "--", " ", "\n", "\u2410", ">", "<")
DOCS = [p03.DOCS[0], ("structure", [()], [E(b"x"), T(b"a<b"), C(b"c"), R(b"lt"), R(b"#65"), ("P", b"p", b"z w"), X], 4, 5),
        ("attributes", [(E(b"x"),)], p03.MENU2, 4, 5),
        ("namespaces", [(E(b"x"), ("N", b"p", b"u"))], p03.MENU4, 4, 5),
        ("doctype", [(("D", b"html"),)], [E(b"x"), C(b"c"), T(b"t"), X], 3, 4)]
HOLES = [("text", [(E(b"x"), T(HOLE), X), (E(b"x"), A(b"k", T(HOLE)), X), (E(b"x"), E(b"y"), X, T(HOLE), X)], STR, 3, 4),
         ("comment", [(E(b"x"), C(HOLE), X), (C(HOLE), E(b"x"), X)], COM, 4, 5)]

N = (False,)
READ = [
    ("structure", B("", "<?xml version='1.0'?>"), B("<a>", "</a>", "<b/>", "t", "<!--c-->", "<?p q?>", " ", "<", "/>"), B(""), 4, 5, N, True),
    ("text", B("<a>"), B("t", "&amp;", "&#65;", "&#x3c;", "&e;", "<![CDATA[<", "]]>", "&", ";", "<b/>"), B("</a>"), 4, 5, N, True),
    ("attr", B("<a", "<a k='v'"), B(" k=", " p:k=", " xmlns:p=", "'v'", '"w"', "''", "<", "&lt;", "\n", "x"), B("/>"), 4, 5, N, True),
    ("ns", B("<a xmlns:p='u'>", "<p:a xmlns:p='u' xmlns='w'>"), B("<p:b", "<b", " xmlns='v'", " xmlns:p='w'", " p:k='1'", " k='2'", ">", "/>", "</b>", "</p:b>"), B("</a>", "</p:a>"), 5, 6, N, False),
    ("comment", B("<a><!--", "<!--"), B("-", "--", ">", "\u2410", "c", "<", "&", "\n"), B("--></a>", "--><a/>"), 4, 5, N, True),
    ("pi", B("<a><?p", "<?"), B(" ", "?", "?>", ">", "xml", "q", "\n", "<"), B("</a>", "?><a/>"), 4, 5, N, True),
    ("doctype", B("<!DOCTYPE", "<!--c--><!DOCTYPE"), B(" a", ">", "<a/>", " ", "<!--c-->", "t"), B(""), 4, 5, N, False),
]


def run(c):
    c.build("harness")
    docs = xprint.enumerate_docs(c, DOCS, HOLES)
    groups = [["build\t0\t" + tree.to_build(ev), "print\t0\tfmt=xml", "xmlback\t0", "dump\t0"] for ev, tl in docs]
    xread.replay(c, READ)
    recs, at = [], []
    for (ev, tl), a in zip(docs, c.run(groups)):
        f = a[-1]
        if f[0] == "SKIPPED" and a[-2][0] == "SKIPPED": continue
        if f[0] in ("CRASH", "HANG", "SKIPPED"):
            c.fail("xml:" + tree.to_build(ev), document=tree.show(ev), reason="crash", observed=a); continue
        s = unhx(a[1][0]) or b""
        back = tree.from_dump(a[2][1]) if a[2][0] == "1" else ()
        recs.append({"doc": tl, "s": list(s), "ok": a[2][0] == "1", "back": tree.to_tla(back), "after": tree.to_tla(tree.from_dump(a[3][0]))})
        at.append((ev, s, back))
    c.assumptions.append("libxml2 reads and writes the xml syntax; the library's own steps around it are what can break")
    for b in range(0, len(recs), 40000):
        for mm in c.validate("XmlTrace", recs[b:b + 40000], heap="10g"):
            ev, s, back = at[b + mm[1] - 1]
            c.fail("xml:" + tree.to_build(ev), document=tree.show(ev), reason=mm[2], printed=show(s), again=tree.show(back))
    for ev, s, back in at[3::max(1, len(at) // 4)]: c.sample({"document": tree.show(ev), "xml": show(s)}, 5)
    return c.finish(rule="")
