"""P03: pretty printing and reading back."""
import xprint
from xprint import E, T, C, R, A, X, HOLE, B

MENU1 = [E(b"x"), E(b"long"), T(b"1"), T(b"a b"), C(b"c"), R(b"lt"), X]
MENU2 = [E(b"x"), A(b"a"), A(b"b", T(b"1")), A(b"c", T(b"v w")), A(b"d", R(b"lt")), A(b"ee", T(b"a"), R(b"lt"), T(b"'")), T(b"t"), X]
MENU3 = [E(b"x"), E(b"y"), ("P", b"p", b"z w"), ("P", b"q", b""), T(b""), T(b"\n"), C(b"a\nb"), X]
MENU4 = [E(b"x"), E(b"y", b"p"), ("N", b"p", b"u"), ("N", b"p", b"w"), ("N", None, b"v w"), ("N", None, b""), A(b"k", T(b"1"), p=b"p"), A(b"k"), X]
DEEP = tuple(E(b"e%d" % i) if i % 3 else E(b"f", b"p") for i in range(1, 11))
DOCS = [("deep", [(E(b"x"), ("N", b"p", b"u")) + DEEP], [E(b"y"), T(b"a\nb"), T(b"t"), C(b"c\nd--e"), C(b"x--y"), A(b"k", T(b"v w")), R(b"lt"), X], 3, 4),
        ("structure", [()], MENU1, 5, 6), ("attributes", [(E(b"x"),)], MENU2, 4, 5), ("special", [(), (("D", b"html"),), (C(b"c"), ("D", b'a SYSTEM "b"')), (("P", b"p", b"q"), ("D", b'h PUBLIC "b" "c"'))], MENU3, 4, 5),
        ("namespaces", [(E(b"x"), ("N", b"p", b"u"))], MENU4, 4, 5)]

ENDS = B("a", ";", "/", "=", "*", "&", "?", "!", ":", ",", "#", "//", "/*", "\"", ">", "-", "1")
Y = E(b"y"), T(HOLE), X
NEXT = [(E(b"x"),) + Y + n + (X,) for n in [(E(b"z"), X), (E(b"z"), T(b"1"), X), (T(b"t"),), (R(b"lt"),), (C(b"c"),), (C(b"c\nd"),), (("P", b"p", b"q"),)]] + [
    (E(b"x"), A(b"k", T(HOLE)), A(b"l"), X), (E(b"x"), A(b"k", T(HOLE)), A(b"l", T(b"1")), T(b"2"), X), (E(b"x"), A(b"k", T(HOLE)), ("N", b"p", b"u"), E(b"z"), X, X),
    (E(b"x"), ("N", None, HOLE), ("N", b"p", b"u"), E(b"z"), X, X)]
PI = [(("P", b"p", HOLE), E(b"x"), X), (E(b"x"), ("P", b"p-i", HOLE), X), (E(b"x"), E(b"y"), ("P", b"p", HOLE), T(b"t"), X, X)]
HOLES = [("ends", NEXT, ENDS, 2, 3), ("pi", PI, B("a", " ", "\n", "'", "=", "&", "<"), 4, 5),
         ("pi tabs", PI, B("a", " ", "\t", "\n"), 3, 5)]


def run(c):
    c.build("harness")
    docs = xprint.enumerate_docs(c, DOCS, HOLES)
    xprint.check_docs(c, docs, [("fmt=xmq",)])
    return c.finish(rule="")
