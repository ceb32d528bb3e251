"""P04: compact printing and reading back."""
import xprint, p03
from xprint import E, T, C, R, A, X

# Texts that compact xmq can only write in pieces.
PIECES = [("pieces", [(E(b"x"),), (E(b"x"), E(b"y"))], [T(b"p\rq"), T(b"p\nq"), T(b"\tp "), T(b"p'"), T(b"\n"), C(b"c\nd"), R(b"e"), A(b"k", T(b"p\rq")), A(b"l", T(b"p\n\n'q")), E(b"z"), X], 4, 5)]


def run(c):
    c.build("harness")
    xprint.check_docs(c, xprint.enumerate_docs(c, p03.DOCS + PIECES, p03.HOLES), [("fmt=xmq", "compact")])
    return c.finish(rule="")
