"""P11: a document written as json is json and holds the document."""
import vf, tree, xprint, xjson
from vf import hx, unhx, show
from xprint import E, T, C, R, A, X, HOLE, B

D = ("D", b"html")
TEXT = B("a", " ", "\n", "\t", "\r", "\\", '"', "'", "/", "&", "<", "\u0001", "\u001f", "\u007f", "\u00e5", "\U0001F600", "1", "-", ".", "e", "true", "null")
NAMEY = B("a", "_", "A", "S", ":", " ", "1", "|", "/", "&", "!DOCTYPE", "?", "[1]", '"', "\\")
DOCS = [
    ("structure", [(), (E(b"x"),), (E(b"_"),)], [E(b"a"), E(b"_"), A(b"A"), A(b"S"), A(b"k", T(b"v")), T(b"t"), T(b"1"), C(b"c"), R(b"lt"), R(b"e"), X], 3, 5),
    ("marks", [(E(b"x"), E(b"_")), (E(b"_"), A(b"A"))], [E(b"_"), E(b"b"), A(b"A"), A(b"S"), A(b"_", T(b"a b")), A(b"_", T(b"ok")), T(b"t"), T(b"7"), T(b""), C(b"c"), R(b"e"), X], 4, 5),
    ("arrays", [(E(b"_"), A(b"A")), (E(b"x"), E(b"l"), A(b"A"))], [E(b"_"), E(b"b"), A(b"A"), A(b"k", T(b"v")), T(b"t"), C(b"c"), R(b"e"), ("P", b"p", b"z"), X], 4, 5),
    ("same names", [(E(b"x"),)], [E(b"a"), A(b"A"), E(b"a", b"p", b"u"), ("N", b"p", b"u"), E(b"b"), T(b"t"), C(b"c"), ("P", b"p", b"z w"), X], 4, 5),
    ("attributes", [(E(b"x"),), (E(b"x"), E(b"y"))], [A(b"k", T(b"v")), A(b"l"), A(b"k", T(b"w"), p=b"p", h=b"u"), A(b"j", R(b"lt"), T(b"a")), A(b"i", R(b"e")), A(b"_x", T(b"1")), ("N", None, b"w"), ("N", b"p", b"u"), T(b"t"), E(b"z"), X], 4, 5),
    ("around", [(), (D,), (C(b"o"), D)], [E(b"x"), E(b"_"), A(b"A"), C(b"c"), C(b"d"), T(b"t"), ("P", b"p", b"z"), X], 4, 5),
    ("names", [(), (E(b"x"),), (E(b"_"), A(b"A"))], [E(b"_"), E(b"__"), E(b"_A"), E(b"_S"), E(b"_k"), E(b"a.b"), E(b"a-1"), E(b"A"), E(b"S"), T(b"t"), A(b"_"), X], 3, 5),
]
HOLES = [
    ("text", [(E(b"x"), T(HOLE), X), (E(b"x"), E(b"y"), T(HOLE), X, X), (E(b"_"), A(b"A"), E(b"_"), T(HOLE), X, X), (E(b"x"), A(b"k", T(HOLE)), X), (E(b"x"), A(b"k", T(b"v")), T(HOLE), X)], TEXT, 2, 3),
    ("typed", [(E(b"x"), E(b"y"), T(HOLE), X, X), (E(b"x"), E(b"y"), A(b"S"), T(HOLE), X, X)], B("1", "-", "0", ".", "e", "true", "null", "false"), 4, 5),
    ("comment", [(E(b"x"), C(HOLE), X), (C(HOLE), E(b"x"), X), (E(b"x"), X, C(HOLE))], B("a", " ", "\n", "\\", '"', "*/", "\u00e5"), 3, 4),
    ("key", [(E(b"x"), E(b"_"), A(b"_", T(HOLE)), T(b"5"), X, X), (E(b"x"), E(b"_"), A(b"_", T(HOLE)), E(b"y"), X, X, X), (E(b"x"), E(b"_"), A(b"_", T(HOLE)), A(b"A"), E(b"_"), X, X, X), (E(b"x"), E(b"_"), A(b"_", T(HOLE)), T(b"v"), X, X)], NAMEY, 3, 4),
]


def run(c):
    c.build("harness")
    docs = xprint.enumerate_docs(c, DOCS, HOLES)
    recs, at = [], []
    for (ev, tl), a in zip(docs, c.run([["build\t0\t" + tree.to_build(ev), "print\t0\tfmt=json"] for ev, tl in docs])):
        f = next((x for x in a if x[0] in ("CRASH", "HANG")), None)
        if f: c.fail("doc:" + tree.to_build(ev), document=tree.show(ev), reason="crash", observed=f); continue
        if a[-1][0] == "SKIPPED": continue
        c.replayed += 1
        o = unhx(a[1][0]) or b""
        recs.append({"kind": "doc", "t": [], "doc": tl, "outs": [list(o)]})
        at.append((tree.to_build(ev), tree.show(ev), [o]))
        if len(at) % 9000 == 5: c.sample({"document": tree.show(ev), "json": show(o)}, 6)
    xjson.validate(c, recs, at, "doc:")
    return c.finish(rule="every document enumerated by DocGen is written as json by the library; TLC parses the text and compares the document it is with the one that was written")
