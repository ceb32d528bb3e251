"""Json: TLC enumerates texts with the documents they are; TLC also judges what the library writes."""
import vf, tree
from vf import hx, unhx, tla_set, show
from lex import B

# name, prefixes, chunks, endings, max quick, max thorough, malformed texts too
SWEEPS = [
    ("structure", B(""), B("{", "}", "[", "]", ",", ":", '"a"', "1", "null", '"b":'), B("", " "), 5, 6, True),
    ("items", B("["), B("1", ",", "]", "[", '"x"', "{}", " ", "true", '"1"', '""'), B("", "]"), 4, 5, True),
    ("numbers", B("", "[1,", '{"a":'), B("-", "0", "1", "2", ".", "e", "E", "+"), B("", "]", "}"), 4, 6, True),
    ("literals", B("", "["), B("true", "false", "null", "tru", "e", "nul", "True", " ", ",", "]"), B(""), 4, 5, True),
    ("strings", B('"', '{"a":"'), B("a", "\\", "n", '"', "\\u00", "41", "e9", "/", "t", "\\u"), B('"', '"}', ""), 4, 5, True),
    ("escapes", B('"'), B("\\b", "\\f", "\\n", "\\r", "\\t", "\\/", "\\\\", '\\"', "\\a", "\\'", "\\u20ac", "\\uD83D", "\\uDE00", "\\u00E5", "å", "😀", "'", "&", "\\u0001"), B('"'), 2, 3, True),
    ("typed", B('["', '{"k":"', '"'), B("1", "-", "0", ".", "5", "e", "true", "null", "false", " ", ""), B('"]', '"}', '"'), 3, 4, False),
    ("keys", B('{"'), B("a", "_", "A", "S", ":", " ", "1", "-", ".", "[1]", "[", "]", "0", "é", "!", "|", "/", "&", "?", "'"), B('":5}', '":"v"}', '":null}', '":{"x":1}}', '":["x"]}', '":"1"}', '":true}'), 3, 4, False),
    ("inner", B('{"k":{"', '[{"', '{"k":[{"', '{"_":"r","'), B("a", "_", "//", "|", "!DOCTYPE", ":", "A", "b"), B('":5}}', '":"v"}}', '":"v"}]', '":null}]', '":"v"}]}', '":"html"}', '":5}', '":"v"}', '":{"_":"x"}}'), 2, 3, False),
    ("members", B("{"), B('"a":1', '"a[0]":"x"', '"a[1]":{}', '"_b":"c"', '"_p:b":"c"', '"_xmlns":"u"', '"_xmlns:p":"v"', '"p:c":null', '"_":"r"', '"_//":"d"', '"//":"e"', '"|":"f"', '"!DOCTYPE":"html"', '"k":[{}]', '"a b":[]', ","), B("}"), 5, 5, False),
    ("names", B('{"_":"', '[{"_":"'), B("a", ":", "p", "_", "1", " ", "-"), B('"}', '","k":1}', '"}]', '","k":1}]', '","_//":"c"}'), 3, 4, False),
]


def enumerate_cases(c, sweeps):
    rec = ", ".join("[pre |-> %s, chunks |-> %s, post |-> %s, max |-> %d, all |-> %s]" % (
        tla_set(p), tla_set(ch), tla_set(post), nt if c.thorough else nq, "TRUE" if bad else "FALSE")
        for _, p, ch, post, nq, nt, bad in sweeps)
    mc = "---- MODULE MC ----\nEXTENDS JsonGen\nS == <<%s>>\n====\n" % rec
    r = c.tlc("MC", "CONSTANT Sweeps <- S\nINIT Init\nNEXT Next\nINVARIANT Nested\n", extra=mc, timeout=3600)
    if r.violated: raise vf.InfraError("specification invariant %s violated\n%s" % (r.violated, r.tail))
    return {bytes(t[1]): t for t in r.printed}


def parse_cmd(text, slot=0): return "parse\t%d\tjson\t0\t-\t%s" % (slot, hx(text))


def replay(c, sweeps, kind="harness"):
    cases = enumerate_cases(c, sweeps)
    keys = sorted(cases)
    ok = 0
    for k, a in zip(keys, c.run1([parse_cmd(k) for k in keys], kind=kind)):
        if a[0] == "SKIPPED": continue
        c.replayed += 1
        t = cases[k]
        e = ("ok", tree.from_tla(t[3])) if t[2] == 1 else ("err",)
        o = tuple(a) if a[0] in ("CRASH", "HANG") else ("ok", tree.from_dump(a[4])) if a[0] == "1" else ("err",)
        if e[0] == "ok": ok += 1
        if o != e: c.fail("json:" + k.hex(), text=show(k), expected=e, observed=o)
        elif e[0] == "ok" and ok % 5000 == 7: c.sample({"json": show(k), "document": tree.show(e[1])[:200]}, 6)
    c.notes["json_texts_read"] = ok
    c.notes["json_texts_rejected"] = len(keys) - ok
    return cases


def validate(c, recs, at, key, batch=40000):
    for b in range(0, len(recs), batch):
        for mm in c.validate("JsonTrace", recs[b:b + batch], heap="10g"):
            x = at[b + mm[1] - 1]
            c.fail(key + x[0], what=x[1], reason=mm[2], outputs=[show(o) for o in x[2]])
