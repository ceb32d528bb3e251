"""Documents: TLC enumerates texts with the documents they describe; the implementation must build the same ones."""
import vf, tree, lex, gen
from vf import hx, unhx, tla_set, tla_bytes, show
from lex import B

# name, prefixes, chunks, max quick, max thorough, implicit roots, merge settings
ALL = (True,)
SWEEPS = [
    ("elements", B(""), B("a", "b", "=", "1", "(", ")", "{", "}", "'x'", " "), 4, 5, [None], ALL),
    ("roots", B("", "'t'", "//c\n"), B("a", "r", "=1", "{", "}", " ", "'x'"), 5, 6, [b"r", None], ALL),
    ("texts", B("a{", "x="), B("'x'", "''", "&amp;", "&#65;", "}", "(", ")", " ", "'\n'", "b"), 4, 5, [None], (True, False)),
    ("attrs", B("x(", "x(a="), B("a", "b", "=", "'v'", "''", "(", "&lt;", "&#x41;", ")", " "), 4, 5, [None], (True, False)),
    ("ns", B("x(", "p:x(", "a(xmlns:p=u){p:b("), B("xmlns", "xmlns:p", "p:a", "a", "=u", "=''", ")", " ", "{p:c}", "=v"), 4, 5, [None], ALL),
    ("ns2", B("a(xmlns:p=u){", "a(xmlns=u){", "p:a{"), B("p:b", "c", "(xmlns:p=v)", "(xmlns=w)", "(p:k=1)", "{", "}", " ", "=1"), 4, 5, [None], ALL),
    ("trim", B("'", "  '", "x='", "å ='", "'''"), B("\n", " ", "a", "  ", "'", "\n\n", "\t"), 5, 6, [None], ALL),
    ("trimcr", B("'", "   '"), B("\n", " ", "a", "\r\n", "\t", "'"), 5, 6, [None], ALL),
    ("comments", B("/*", " /*", "//", "x /*", "a{//"), B("\n", " ", "a", "*/", "/", "*", "/*", "}"), 5, 6, [None], ALL),
    ("comments2", B("///*", "  ///* "), B("\n", " ", "a", "*///", "*/", "*", "/"), 5, 6, [None], ALL),
    ("entities", B("'a'&#", "x=&#", "x=(&#", "a(k=&#"), B("x", "1", "6", "0", "f", "F", ";", "9", "'b'", ")"), 4, 5, [None], ALL),
    ("doctype2", B("", "//c\n", "?p=q ", "//c\n?p "), B("!DOCTYPE='", "html", " SYSTEM \"x\"", " PUBLIC \"y\" \"z\"", "' ", "a", "!DOCTYPE=b "), 5, 6, [None], ALL),
    ("codepoints", B("x=&#", "'a'&#", "a(k=(&#"), B("x7f;", "x80;", "x7ff;", "x800;", "xfff;", "xffff;", "x10000;", "x10ffff;", "2047;", "65536;", "&#", ")"), 3, 4, [None], ALL),
    ("prefixes", B("ab:x(", "abc:x(", "x("), B("ab:k=1", " abc:k", " xmlns:ab=v", " xmlns:abc=u", " a:k=2", " xmlns:a=w", ")"), 5, 6, [None], ALL),
    ("pi", B("?p=", "?xml-a ="), B("x", "'", "''", "y", " ", "\n", "a=1", "?q=", "="), 4, 5, [None], ALL),
    ("doctype", B("!DOCTYPE", "//c\n!DOCTYPE"), B("=html", "=", "'html'", " ", "a", "{", "}", "=1"), 4, 5, [None, b"html"], ALL),
]


def tla_opt(x): return "<<>>" if x is None else "<<%s>>" % tla_bytes(x)


def observed(f):
    if f[0] in ("CRASH", "HANG", "SKIPPED"): return tuple(f)
    if f[0] == "1": return ("ok", tree.from_dump(f[4]))
    err, warn = (0, 0), (0, 0)
    for m in lex.LOC.finditer(unhx(f[3]) or b""):
        p = (int(m.group(1)), int(m.group(2)))
        if m.group(3) == b"error": err = p
        else: warn = p
    return ("err", int(f[1])) + err + (warn,)


def expectation(t):
    if t[4] == 1: return ("ok", tree.from_tla(t[5]))
    return ("err", t[5], t[6], t[7], tuple(t[8]))


def parse_cmd(text, root=None, merge=True, typ="xmq", slot=0):
    return "parse\t%d\t%s\t%d\t%s\t%s" % (slot, typ, 0 if merge else NOMERGE, hx(root), hx(text))


NOMERGE = 8


def enumerate_cases(c, sweeps, quick=None):
    rec = ", ".join("[pre |-> %s, chunks |-> %s, max |-> %d, roots |-> {%s}, merges |-> {%s}]" % (
        tla_set(p), tla_set(ch), nt if c.thorough else nq, ", ".join(map(tla_opt, roots)), ", ".join("TRUE" if m else "FALSE" for m in merges))
        for _, p, ch, nq, nt, roots, merges in sweeps)
    mc = "---- MODULE MC ----\nEXTENDS TreeGen\nS == <<%s>>\n====\n" % rec
    r = c.tlc("MC", "CONSTANT Sweeps <- S\nINIT Init\nNEXT Next\nINVARIANT Nested\n", extra=mc, timeout=3600)
    if r.violated: raise vf.InfraError("specification invariant %s violated\n%s" % (r.violated, r.tail))
    cases = {}
    for t in r.printed:
        cases[(bytes(t[1]), bytes(t[2][0]) if t[2] else None, bool(t[3]))] = t
    return cases


def replay(c, sweeps, kind="harness"):
    cases = enumerate_cases(c, sweeps)
    keys = sorted(cases, key=lambda k: (k[0], k[1] or b"", k[2]))
    ans = c.run1([parse_cmd(*k) for k in keys], junk=lex.JUNK[c.seed % len(lex.JUNK)], kind=kind)
    for k, a in zip(keys, ans):
        o = observed(a)
        if o[0] == "SKIPPED": continue
        c.replayed += 1
        e = expectation(cases[k])
        if o != e:
            c.fail("parse:%s:%s:%d" % (k[0].hex(), hx(k[1]), k[2]), text=show(k[0]), hex=k[0].hex(), root=show(k[1] or b""), merge=k[2], expected=e, observed=o)
    ok = [k for k in keys if cases[k][4] == 1]
    c.notes["documents_replayed"] = len(ok)
    c.notes["rejections_replayed"] = len(keys) - len(ok)
    for k in ok[7::max(1, len(ok) // 4)]: c.sample({"text": show(k[0]), "document": tree.show(expectation(cases[k])[1])[:200]}, 5)
    return cases
