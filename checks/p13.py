"""P13: everything that is rejected is reported, and nothing else happens."""
import vf, gen, lex
from vf import hx, unhx, show, tla_set
from lex import B

SWEEPS = [
    ("structure", B("", "å {\n", "a\n  "), B("a", "=", "(", ")", "{", "}", "'", " ", "\n"), 4, 5),
    ("quotes", B("x='", "å='a\n "), B("'", "''", "b", ",", " ", "\n", "="), 4, 5),
    ("chars", B("", "x ", "x='å'\n€ ", "x{\n å="), B("å", "€", "😀", "\u00a0", ",", "\"", "\u0001", "\n", "\t"), 3, 4),
    ("points", B("", "x=&", "a{\n é", "?"), B("\u0080", "\u07ff", "\u0800", "\uffff", "\U00010000", "\U0010ffff", "\U000bffff", "\u3fff", "a"), 2, 3),
    ("values", B("x=", "x(y="), B("/", "*", "=", "&", "(", "a", "{", "\"", "}", ")", " ", "\n"), 3, 4),
    ("comments", B("", "å{\n "), B("/", "*", "a", "\n", "//", "*/"), 4, 5),
    ("doctype", B("", "a{", "//\n"), B("!DOCTYPE", "?", "p", "=", " ", "\t", "\n", "!", "'"), 4, 5),
    ("tabs", B("x", "x(", "å\n"), B("\t", "a", "=", " ", "\n", "\r"), 4, 5),
]
XMLISH = [b"<", b">", b"</a>", b"<a>", b"<b x='1'", b"/>", b"<!--", b"-->", b"<![CDATA[", b"]]>", b"&", b"&amp;", b"&#10;", b"&foo;", b"<?p q?>", b"<!DOCTYPE a>", b"<!DOCTYPE html>", b"<html>", b"<style>", b"</style>", b"<p>", b" xmlns='u'", b" xmlns:p=\"\"", b"<p:q>", b"t", b" ", b"\n", b"\t", b"\xc3\xa5", b"\xff", b"'", b'"', b"=", b"<br>", b"<script>", b"\xef\xbb\xbf", b"\x01", b"]", b"<?xml version='1.0'?>", b"<?xml", b"<!ENTITY e 'x'>", b"<!DOCTYPE a [", b"<html"]
JSONISH = [b"{", b"}", b"[", b"]", b",", b":", b'"a"', b'"', b'"_b"', b'"_"', b'"//"', b'"|"', b'"_xmlns:p"', b'"!DOCTYPE"', b"1", b"-", b"1e5", b".", b"true", b"null", b"fals", b"\\", b"\\u", b"\\ud83d", b"00e5", b"\\n", b" ", b"\n", b"\t", b"\xc3\xa5", b"\xff", b"'", b"\xf0\x9f\x98\x80", b"{\"a\":", b"[1,2", b"\xc2\xa0", b"\x01", b'"a b":', b'"A":']


def soup(r, parts, start): return r.choice(start) + b"".join(r.choice(parts) for _ in range(r.randint(0, 12)))


def messages(c):
    rec = ", ".join("[pre |-> %s, chunks |-> %s, max |-> %d]" % (tla_set(p), tla_set(ch), nt if c.thorough else nq) for _, p, ch, nq, nt in SWEEPS)
    mc = "---- MODULE MC ----\nEXTENDS ErrorGen\nS == <<%s>>\n====\n" % rec
    r = c.tlc("MC", "CONSTANT Sweeps <- S\nINIT Init\nNEXT Next\n", extra=mc, timeout=3600)
    cases = {bytes(t[1]): (t[2], bytes(t[3])) for t in r.printed}
    keys = sorted(cases)
    groups = [["tok\t" + hx(k), "parse\t0\txmq\t0\t-\t" + hx(k)] for k in keys]
    for k, a in zip(keys, c.run(groups)):
        f = next((x for x in a if x[0] in ("CRASH", "HANG")), None)
        if f: c.fail("msg:" + k.hex(), text=show(k), observed=f); continue
        if a[-1][0] == "SKIPPED": continue
        c.replayed += 1
        err, msg = cases[k]
        t, p = a
        if t[0] != "0" or t[1] != str(err) or (unhx(t[3]) or b"") != msg:
            c.fail("msg:" + k.hex(), text=show(k), expected=[err, show(msg)], observed=[t[:3], show(unhx(t[3]) or b"")])
        elif p[1] == "17" and b"DOCTYPE" in k: pass   # a doctype before the error that has a value which is not one
        elif p[0] != "0" or p[1] != str(err) or (unhx(p[3]) or b"") != msg + b"\n":
            c.fail("docmsg:" + k.hex(), text=show(k), expected=[err, show(msg)], observed=[p[:3], show(unhx(p[3]) or b"")])
    c.notes["rejected_texts_enumerated"] = len(keys)
    for k in keys[5::max(1, len(keys) // 4)]: c.sample({"text": show(k), "message": show(cases[k][1])}, 4)


def recorded(c):
    """Random texts: xmq and json messages against the specification; every reader ends with a document or a report."""
    r, n = c.rng, 30000 if c.thorough else 2500
    items = [("xmq", t) for t in lex.random_texts(c, n)]
    items += [("json", soup(r, JSONISH, [b"{", b"[", b'"', b"1", b'{"a":', b"[[", b"true "])) for _ in range(n)]
    items += [("xml", soup(r, XMLISH, [b"<a>", b"<", b"<!--c-->", b"<a x='", b"<?xml version='1.0'?><a>"])) for _ in range(n)]
    items += [("html", soup(r, XMLISH, [b"<html>", b"<html><body>", b"<!doctype html>", b"<p>"])) for _ in range(n)]
    items += [("xmq", soup(r, gen.NOISE, [b"", b"a", b"x=", b"\xff"])) for _ in range(n)]
    lines = ["parse\t0\t%s\t%d\t%s\t%s" % (ty, r.choice([0, 1, 2, 4, 8]) if ty != "json" else 0, r.choice(["-", "-", hx(b"r")]), hx(t)) for ty, t in items]
    recs, at = [], []
    kinds = {}
    for (ty, t), line, a in zip(items, lines, c.run1(lines, kind="harness_asan")):
        if a[0] == "SKIPPED": continue
        if a[0] in ("CRASH", "HANG"): c.fail("end:" + ty + ":" + t.hex(), type=ty, text=show(t), command=line, observed=a); continue
        msg = unhx(a[3]) or b""
        kinds[ty + (" read" if a[0] == "1" else " rejected")] = kinds.get(ty + (" read" if a[0] == "1" else " rejected"), 0) + 1
        if a[0] == "1" and a[1] != "0": c.fail("end:" + ty + ":" + t.hex(), type=ty, text=show(t), reason="read, and an error", observed=a)
        elif a[0] == "0" and a[1] == "0": c.fail("end:" + ty + ":" + t.hex(), type=ty, text=show(t), reason="rejected without an error", observed=a)
        elif a[0] == "0" and ty in ("xmq", "json") and not msg: c.fail("end:" + ty + ":" + t.hex(), type=ty, text=show(t), reason="rejected without a message", observed=a)
        elif a[0] == "0" and ty in ("xmq", "json") and not a[2].startswith("expected ") and valid(t):
            # expected ... source: decided by P12
            recs.append({"kind": "doctype" if a[1] == "17" else ty, "s": list(t), "msg": list(msg[:-1])}); at.append((t, msg))
    for mm in c.validate("ErrorTrace", recs, heap="10g"):
        t, msg = at[mm[1] - 1]
        c.fail("msg:" + t.hex(), text=show(t), reason=mm[2], observed=show(msg))
    c.notes["random_texts"] = kinds


def valid(t):
    try: t.decode()
    except UnicodeDecodeError: return False
    return True


def run(c):
    c.build("harness", "harness_asan")
    messages(c)
    recorded(c)
    return c.finish(rule="every text enumerated by ErrorGen is rejected with exactly the message of the specification; random texts of every type are read, with the messages judged by TLC (ErrorTrace), under address sanitizer")
