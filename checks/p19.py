"""P19: renderings in colour."""
import xrender, xprint, lex, p03
from xprint import E, T, C, R, A, X, HOLE, B

SPECIAL = B("<", "&", ">", "\"", "\\", "{", "}", "_", "#", "%", "$", "^", "~", "'", "a", " ", "\n", "å", "\u00a0", "\u2003")
SPOTS = [(E(b"x"), T(HOLE), X), (E(b"x"), A(b"k", T(HOLE)), X), (E(b"x"), C(HOLE), E(b"y"), X), (E(b"x"), E(b"y"), X, T(HOLE), R(b"e"), X), (("P", b"p", HOLE), E(b"x"), X)]
XSL = [E(b"t", b"xsl"), E(b"y"), A(b"k", T(b"1")), A(b"l", T(b"v w"), R(b"lt")), T(b"a b"), T(b"1"), C(b"c"), X]
LIKE = [E(b"t", b"xslt"), E(b"xslt"), A(b"xsl", T(b"1")), A(b"k", T(b"xsl"), p=b"xslt"), T(b"xsl"), X]
DOCS = [("structure", [()], p03.MENU1, 4, 5), ("attributes", [(E(b"x"),)], p03.MENU2, 3, 4), ("special", [(), (("D", b"html"),)], p03.MENU3, 3, 4),
        ("namespaces", [(E(b"x"), ("N", b"p", b"u"))], p03.MENU4, 3, 4), ("xsl", [(E(b"x"), ("N", b"xsl", b"u")), (E(b"x"), ("N", b"xslt", b"u")), (E(b"x"), ("N", b"xs", b"u"))], XSL, 3, 4),
        ("like xsl", [(E(b"x"), ("N", b"xslt", b"u"))], LIKE, 3, 4)]
HOLES = [("text", SPOTS, SPECIAL, 2, 3), ("lines", SPOTS, B("a", " ", "\n", "'", "\t"), 3, 5)]


def run(c):
    c.build("harness")
    docs = xprint.enumerate_docs(c, DOCS, HOLES)
    xrender.judge(c, *xrender.documents(c, docs))
    xrender.judge(c, *xrender.texts(c, lex.random_texts(c, 40000 if c.thorough else 1200)))
    return c.finish(rule="every document enumerated by DocGen is drawn by the library in html, tex and terminal colours, pretty and compact, and random texts by the tokenizer; TLC reads the drawings back into text and marks, and compares the text with what plain printing gives and the marks with the tokens of the text")
