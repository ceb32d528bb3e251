"""P07: comments are printed and read back the same."""
import xprint
from xprint import E, T, C, R, A, X, HOLE, B

STR = B("a", " ", "\n", "*", "/", "*/")
DOCS1 = [(C(HOLE), E(b"x"), X), (E(b"x"), C(HOLE), X)]
DOCS2 = [(E(b"x"), E(b"y"), C(HOLE), E(b"z"), X, X, X), (E(b"x"), X, C(HOLE)), (E(b"x"), C(HOLE), T(b"t"), X), (E(b"x"), T(b"t"), C(HOLE), C(HOLE), X)]
HOLES = [("top", DOCS1, STR, 4, 6), ("nested", DOCS2, STR, 3, 5)]


def run(c):
    c.build("harness")
    docs = xprint.enumerate_docs(c, [], HOLES)
    xprint.check_docs(c, docs, [("fmt=xmq",), ("fmt=xmq", "compact")])
    return c.finish(rule="")
