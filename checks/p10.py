"""P10: a json value survives being written as json, directly and by way of xmq."""
import vf, tree, xjson
from vf import hx, unhx, show
from lex import B

SWEEPS = [
    ("strings", B('"', '{"k":"', '["'), B("a", " ", "\\n", "\\t", "'", "&", "\\\\", "\\\"", "\\u0001", "å", "&amp;", "<", "\\r", "😀", "\\u00a0", "=", "/*", "//", "\\u007f"), B('"', '"}', '"]'), 2, 3, False),
    ("blanks", B('"', '{"k":"'), B("a", " ", "\\n", "'", "\\t"), B('"', '"}'), 5, 6, False),
    ("attribute", B('{"k":{"_a":"'), B("a", " ", "\\n", "'", "&", "\\\"", "\\\\", "\\t", "\\r", "å"), B('"}}', '","|":"t"}}'), 3, 4, False),
    ("typed", B('["', '{"k":"', '"'), B("1", "-", "0", ".", "5", "e", "true", "null", "false", " ", ""), B('"]', '"}', '"'), 3, 4, False),
    ("literals", B("", "[", '{"k":'), B("1", "-", "0", ".", "5", "e", "E", "+", "true", "null", "false"), B("", "]", "}"), 4, 5, False),
    ("keys", B('{"'), B("a", "_", "A", "S", ":", " ", "1", "-", ".", "[1]", "[", "]", "0", "é", "!", "|", "/", "&", "?", "'", "\\n", "\\\"", "\\\\"), B('":5}', '":"v"}', '":null}', '":{"x":1}}', '":["x"]}', '":"1"}', '":{}}', '":[]}', '":""}'), 2, 3, False),
    ("inner", B('{"k":{"', '[{"', '{"k":[{"', '{"_":"r","'), B("a", "_", "//", "|", "!DOCTYPE", ":", "A", "b", "?"), B('":5}}', '":"v"}}', '":"v"}]', '":null}]', '":"v"}]}', '":"html"}', '":5}', '":"v"}', '":{"_":"x"}}'), 2, 3, False),
    ("structure", B(""), B("{", "}", "[", "]", ",", '"a"', "1", "null", '"b":', '"c":'), B("", "]", "}"), 5, 7, False),
    ("members", B("{", '{"r":{'), B('"a":1', '"a[0]":"x"', '"a[1]":{}', '"_b":"c"', '"_xmlns":"u"', '"_p:b":"c"', '"_xmlns:p":"v"', '"p:c":null', '"_":"r"', '"_//":"d"', '"//":"e"', '"|":"f"', '"!DOCTYPE":"html"', '"k":[{}]', '"a b":[]', ","), B("}", "}}"), 3, 5, False),
    ("same key", B("{", '{"r":{'), B('"a":[1]', '"a[1]":[2]', '"a[2]":3', '"a[3]":{"x":1}', '"p:a":1', '"p:a[1]":[2]', '"|":"t"', '"|[1]":"u"', '"//":"t"', '"//[1]":"u"', ","), B("}", "}}"), 3, 5, False),
    ("items", B("["), B("1", ",", "]", "[", '"x"', "{}", '{"a":1}', "true", '"1"', '""', '{"|":"t"}'), B("", "]"), 4, 5, False),
    ("multiline", B('{"a":{"b":"x\\n', '[["x\\n', '{"a":{"_b":"y","c":"\\n'), B("a", " ", "\\n", "'"), B('"}}', '"]]', '"},"d":1}'), 4, 5, False),
]


def run(c):
    c.build("harness")
    cases = xjson.enumerate_cases(c, SWEEPS)
    keys = sorted(cases)
    groups = [[xjson.parse_cmd(k), "print\t0\tfmt=json", "via\t0\tfmt=xmq\txmq\t0\t1", "print\t1\tfmt=json", "via\t0\tfmt=xmq,compact\txmq\t0\t1", "print\t1\tfmt=json"] for k in keys]
    recs, at = [], []
    for k, a in zip(keys, c.run(groups)):
        f = next((x for x in a if x[0] in ("CRASH", "HANG")), None)
        if f: c.fail("value:" + k.hex(), text=show(k), reason="crash", observed=f); continue
        if a[-1][0] == "SKIPPED": continue
        # what P09 is about: not read
        if a[0][0] != "1": c.notes["not_read"] = c.notes.get("not_read", 0) + 1; continue
        c.replayed += 1
        outs = [unhx(a[i][0]) or b"" for i in (1, 3, 5)]
        recs.append({"kind": "value", "t": list(k), "doc": [], "outs": [list(o) for o in outs]})
        at.append((k.hex(), show(k), outs))
        if len(at) % 9000 == 5: c.sample({"json": show(k), "again": show(outs[0]), "xmq": show(unhx(a[2][1]) or b"")}, 6)
    xjson.validate(c, recs, at, "value:")
    return c.finish(rule="every json text enumerated by JsonGen is read and written as json again, directly, by way of pretty xmq and by way of compact xmq; TLC parses the three outputs and compares the values")
