"""P05: the settings of the printer keep their promises and never change the document."""
import xprint
from xprint import E, T, C, R, A, X, HOLE, B

STR = B("a", " ", "\n", "\t", "å", "'", "\u00a0")
D1 = [(E(b"x"), T(HOLE), X)]
D2 = [(E(b"x"), A(b"k", T(HOLE)), X), (E(b"x"), T(HOLE), E(b"y"), X, X), (E(b"x"), A(b"k", T(HOLE)), E(b"y"), X, X)]
HOLES = [("value", D1, STR, 4, 5), ("attr", D2, STR, 3, 5)]
MENU = [E(b"xx"), A(b"k", T(b"a\nb")), A(b"k2", T(b"\t\xc3\xa5")), T(b"a\tb\n'"), R(b"lt"), C(b"c\n\xc3\xa5"), X]
DOCS = [("structure", [()], MENU, 4, 5)]
SETTINGS = [("fmt=xmq",) + x for x in [("enl",), ("e7",), ("et",), ("enl", "e7", "et"), ("indent=0",), ("indent=1", "e7"), ("indent=7", "et"),
                                       ("compact", "e7"), ("compact", "et"), ("compact", "e7", "et"), ("compact", "enl")]]


def run(c):
    c.build("harness")
    docs = xprint.enumerate_docs(c, DOCS, HOLES)
    xprint.check_docs(c, docs, SETTINGS)
    return c.finish(rule="")
