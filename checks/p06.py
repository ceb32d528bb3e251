"""P06: every text can be written in every position and is read back the same."""
import xprint
from p03 import NEXT, ENDS
from xprint import E, T, C, R, A, X, HOLE, B

STR = B("a", " ", "\n", "'", "\t")
STR2 = B("a", "\r", "&", "/", "=", "(", "}", "\x01", "\u00a0", "\u2003", "\xe5", "''")
VALUE = [(E(b"x"), T(HOLE), X), (E(b"x"), A(b"k", T(HOLE)), X)]
NESTED = [(E(b"x"), T(HOLE), E(b"y"), X, X), (E(b"x"), E(b"y"), T(HOLE), X, X), (E(b"x"), E(b"y"), X, T(HOLE), X),
          (E(b"x"), E(b"y"), A(b"k", T(HOLE)), A(b"l"), E(b"z"), X, X, X)]
MIXED = [(E(b"x"), T(HOLE), R(b"lt"), X), (E(b"x"), R(b"lt"), T(HOLE), X), (E(b"x"), A(b"k", R(b"lt"), T(HOLE)), X), (E(b"x"), T(HOLE), C(b"c"), X),
         (T(HOLE), E(b"x"), X), (E(b"x"), X, T(HOLE))]
# What is on the line before the text decides the column it starts in.
COLUMN = [(E(b"x"), a, T(HOLE), X) for a in (A(b"k", T(b"\t")), A(b"k", T("\u00e5\u00a0".encode())), A(b"k", R(b"lt")), A(b"k", T(b"a'b")), A(b"k", T(b"a\nb")), A(b"k", T(b"v"), R(b"amp"), T(b" ")), A(b"k", T(b" ")), A(b"k", T(b"")), A(b"k"), A(b"k", T(b"\x01\n")), A(b"k", T(b" \n ")), A(b"k", T(b"''")))] + [
    (E(b"x"), ("N", b"p", b"u"), T(HOLE), X), (E(b"x"), E(b"y", b"p", b"u"), ("N", b"p", b"u"), A(b"k", T(b"1"), p=b"p", h=b"u"), T(HOLE), X, X), (E(b"x"), A(b"k", T(b"v")), A(b"longer", T(HOLE)), X)]
HOLES = [("column", COLUMN, B("a", " ", "\n", "'"), 4, 5), ("ends", NEXT, ENDS, 2, 3), ("value", VALUE, STR, 5, 7), ("nested", NESTED, STR, 4, 6), ("mixed", MIXED, STR, 3, 5), ("runs", VALUE + NESTED[:1], B(", ''", "'" * 7, "a", "\n", " "), 3, 4), ("chars", VALUE + NESTED[:1], STR2, 3, 4)]


def run(c):
    c.build("harness")
    docs = xprint.enumerate_docs(c, [], HOLES)
    xprint.check_docs(c, docs, [("fmt=xmq",), ("fmt=xmq", "compact")])
    return c.finish(rule="")
