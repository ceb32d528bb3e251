"""P21: C strings, and the listing of a document as lines."""
import vf, tree, xprint, xcli
from vf import hx, unhx, show, tla_set
from lex import B
from xprint import E, T, C, R, A, X, HOLE

CHARS = [b"a", b"7", b'"', b"\\", b"\n", b"\t", b"\x01", b"\x7f", b"\x1f", b"\r", b"x", b"\xc3\xa5", b"n"]
SWEEPS = [  # name, starts, chunks, ends, quick, thorough
    ("escapes", [b'"', b'"a\\\\'], B("\\", '"', "n", "x", "0", "7", "a", "?", " "), [b'"'], 3, 4),
    ("numbers", [b'"\\1', b'"\\0', b'"\\x'], B("0", "1", "7", "8", "a", "F", "g"), [b'"'], 3, 4),
    ("open", [b"", b" \n"], B('"', "\\", "a", " ", "\n", "\\\\"), [b""], 3, 5),
    ("letters", [b'"\\', b'"\\\\\\', b'"\\a\\'], B(*"abtnvfr\"\\'?0123456789xuUN "), [b'"', b'e"', b""], 1, 1),
]
P = lambda t, s: ("P", t, s)
MENU = [E(b"a"), E(b"b"), E(b"c", b"p", b"urn:p"), T(b"1"), T(b'say "a\\b"'), T(b""), A(b"k", T(b"v\nw")), A(b"e"), A(b"k", T(b"z"), p=b"p", h=b"urn:p"), C(b"c"), P(b"p", b"q"), R(b"nbsp"), X]
DOCS = [("nested", [(), (E(b"r", b"p", b"urn:p"), ("N", b"p", b"urn:p"))], MENU, 3, 4),
        ("deep", [(E(b"a"), E(b"b"), ("N", None, b"u"), A(b"k", T(b"1"), R(b"lt"), T(b'"')))], [E(b"a"), T(b"x\ty"), T(b"z"), C(b"d\ne"), A(b"l", T(b"=")), X], 4, 5),
        ("top", [(), (("D", b"html"),), (C(b"c"), T(b"t\n"))], [T(b"1"), E(b"x"), C(b"c"), P(b"p", b""), R(b"nbsp"), X], 3, 4)]
HOLES = [("texts", [(E(b"a"), A(b"k", T(HOLE)), T(HOLE), X), (T(HOLE),)], CHARS, 2, 3),
         ("wide", [(E(b"a"), A(b"k", T(HOLE)), E(b"b"), T(HOLE), X, X)], [b"\xc2\x80", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\xf4\x8f\xbf\xbf", b"f", b"\x02", b"\\", b"="], 2, 3)]
# Documents that only xml describes.
XML = [b'<!DOCTYPE a [<!ELEMENT a ANY><!ATTLIST a k CDATA "d"><!ENTITY e "val"><!NOTATION n SYSTEM "s">]><a>x&e;y<b/></a>',
       b'<!DOCTYPE a [<!ENTITY e "<b>val</b>"><!ENTITY f "&e;w">]><a k="1&#10;2">&f;<!--c--><?p q?><![CDATA[<"\\]]></a>',
       b'<?xml version="1.0"?><!DOCTYPE a SYSTEM "none.dtd"><!--c--><?p q?><a xml:lang="x" xmlns:p="u" p:k="v"><p:b> </p:b></a>']


def strings(c):
    rec = ", ".join("[pre |-> %s, chunks |-> %s, ends |-> %s, max |-> %d]" % (tla_set(p), tla_set(ch), tla_set(e), nt if c.thorough else nq) for _, p, ch, e, nq, nt in SWEEPS)
    mc = "---- MODULE MC ----\nEXTENDS CStringGen\nS == <<%s>>\n====\n" % rec
    r = c.tlc("MC", "CONSTANT Sweeps <- S\nINIT Init\nNEXT Next\nINVARIANTS Written Back Blanks Cut\n", extra=mc, timeout=3600)
    if r.violated: raise vf.InfraError("specification invariant %s violated\n%s" % (r.violated, r.tail))
    cases = {bytes(t[1]): t[2] for t in r.printed}
    mc = "---- MODULE MC ----\nEXTENDS CStringGen\nS == <<[pre |-> {<<>>}, chunks |-> %s, ends |-> {<<>>}, max |-> %d]>>\n====\n" % (tla_set(CHARS), 4 if c.thorough else 3)
    r = c.tlc("MC", "CONSTANT Sweeps <- S\nINIT Init\nNEXT Next\nINVARIANTS Written Back Blanks Cut\n", extra=mc, timeout=3600)
    if r.violated: raise vf.InfraError("specification invariant %s violated\n%s" % (r.violated, r.tail))
    texts = sorted({bytes(t[1]) for t in r.printed})
    c.notes["sweeps"] = [[s[0], s[5] if c.thorough else s[4]] for s in SWEEPS]
    return cases, texts


def crashed(c, key, r, argv, inp):
    if not xcli.crashed(r): return False
    c.fail(key, command=argv, input=show(inp), observed=[r[0], show(r[2])[-400:]])
    return True


def unquote(c, cases):
    """The strings, unquoted by the tool."""
    keys = sorted(cases, key=lambda k: (len(k), k))
    runs = [(["--text", "-", "unquote-c", "to-text"], k) for k in keys]
    for (argv, k), r in zip(runs, xcli.run(c, runs)):
        if crashed(c, "unquote:" + k.hex(), r, argv, k): continue
        c.replayed += 1
        t = cases[k]
        if t[0] == "unspec": continue
        want = bytes(t[1]) if t[0] == "text" else b"[Not a valid C escaped string]"
        if r[0] != 0 or r[1] != want: c.fail("unquote:" + k.hex(), text=show(k), expected=show(want), observed=[r[0], show(r[1])])
    for k in keys[9::max(1, len(keys) // 3)]: c.sample({"string": show(k), "text": str(cases[k])}, 3)


def quote(c, texts, recs, at):
    """The texts, quoted by the tool, and quoted and unquoted again."""
    runs = []
    for n, t in enumerate(texts):
        nl = n % 3 == 0
        runs.append((["--text", "-", "quote-c"] + ["--add-nl"] * nl + ["to-text"], t))
        if c.thorough or n % 2: runs.append((["--text", "-", "quote-c"] + ["--add-nl"] * nl + ["unquote-c", "to-text"], t))
    for (argv, t), r in zip(runs, xcli.run(c, runs)):
        key = "quote:%s:%s" % ("-".join(argv[2:-1]), t.hex())
        if crashed(c, key, r, argv, t): continue
        if "unquote-c" in argv:
            c.replayed += 1
            if r[1] != t: c.fail(key, text=show(t), observed=[r[0], show(r[1])])
            continue
        recs.append({"k": "quote", "text": list(t), "out": list(r[1]), "nl": "--add-nl" in argv})
        at.append((key, show(t), r[1], b""))
    odd = [(["-i", "a=1"] + q + ["to-text"], b"") for q in (["quote-c"], ["unquote-c"], ["quote-c", "unquote-c"], ["quote-c", "--add-nl", "quote-c"])]
    for (argv, t), r in zip(odd, xcli.run(c, odd)): crashed(c, "odd:" + " ".join(argv), r, argv, t)


def listings(c, docs, recs, at, kind="harness"):
    groups = [["build\t0\t" + tree.to_build(ev), "print\t0\tfmt=clines", "print\t0\tfmt=text"] for ev, _ in docs]
    for (ev, tl), a in zip(docs, c.run(groups, kind=kind)):
        f = next((x for x in a if x[0] in ("CRASH", "HANG")), None)
        if f: c.fail("lines:" + tree.to_build(ev), document=tree.show(ev), observed=f); continue
        if a[-1][0] == "SKIPPED": continue
        recs.append({"k": "doc", "doc": tl, "lines": list(unhx(a[1][0]) or b""), "plain": list(unhx(a[2][0]) or b"")})
        at.append(("lines:" + tree.to_build(ev), tree.show(ev), unhx(a[1][0]) or b"", unhx(a[2][0]) or b""))


def run(c):
    c.build("harness", "harness_asan", "cli", "cli_asan")
    cases, texts = strings(c)
    recs, at = [], []
    docs = xprint.enumerate_docs(c, DOCS, HOLES)
    listings(c, docs, recs, at)
    listings(c, docs[::17], [], [], kind="harness_asan")
    quote(c, texts, recs, at)
    unquote(c, cases)
    some = [(["--text", "-", x, "to-text"], k) for n, k in enumerate(sorted(cases) + texts) if c.thorough or n % 6 == 0 for x in ("quote-c", "unquote-c")]
    some += [(["--xml", "-", x], k) for k in XML for x in ("to-clines", "to-text")]
    for (argv, k), r in zip(some, xcli.run(c, some, kind="cli_asan")): crashed(c, "asan:%s:%s" % (" ".join(argv[2:]), k.hex()), r, argv, k)
    # Listed documents that were read: the same document built by hand has the same listing.
    groups = [["parse\t0\txml\t0\t-\t" + hx(x), "print\t0\tfmt=clines", "print\t0\tfmt=text"] for x in XML]
    for x, a in zip(XML, c.run(groups)):
        if any(f[0] in ("CRASH", "HANG") for f in a): c.fail("lines:xml:" + x.hex(), text=show(x), observed=a)
    for b in range(0, len(recs), 40000):
        for mm in c.validate("LinesTrace", recs[b:b + 40000], heap="10g"):
            k, d, l, p = at[b + mm[1] - 1]
            c.fail(k, reason=mm[2], of=d, printed=show(l), plain=show(p))
    for k, d, l, p in at[3::max(1, len(at) // 4)]: c.sample({"of": d, "printed": show(l)}, 4)
    return c.finish(rule="every text over representative characters is quoted by the tool and the output is read as a C string by TLC (LinesTrace); every string enumerated by CStringGen is unquoted by the tool and compared with what it means; the listing and text of every document enumerated by DocGen are judged by TLC against the listing the specification gives it")
