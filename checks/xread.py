"""Reading xml: TLC enumerates texts with the documents they describe, the library must build the same."""
import vf, tree, lex, xtree
from vf import tla_set, show
from lex import B

TRIM_NONE = 1


def enumerate_cases(c, sweeps):
    """sweep: name, prefixes, chunks, endings, max quick, max thorough, trim settings, malformed texts too"""
    rec = ", ".join("[pre |-> %s, chunks |-> %s, post |-> %s, max |-> %d, trim |-> {%s}, all |-> %s]" % (
        tla_set(p), tla_set(ch), tla_set(post), nt if c.thorough else nq, ", ".join("TRUE" if m else "FALSE" for m in trim), "TRUE" if bad else "FALSE")
        for _, p, ch, post, nq, nt, trim, bad in sweeps)
    mc = "---- MODULE MC ----\nEXTENDS XmlGen\nS == <<%s>>\n====\n" % rec
    r = c.tlc("MC", "CONSTANT Sweeps <- S\nINIT Init\nNEXT Next\n", extra=mc, timeout=3600)
    return {(bytes(t[1]), bool(t[2])): t for t in r.printed}


def replay(c, sweeps, kind="harness"):
    cases = enumerate_cases(c, sweeps)
    keys = sorted(cases)
    ans = c.run1(["parse\t0\txml\t%d\t-\t%s" % (0 if trim else TRIM_NONE, text.hex()) for text, trim in keys], kind=kind)
    ok = []
    for k, a in zip(keys, ans):
        if a[0] == "SKIPPED": continue
        c.replayed += 1
        t = cases[k]
        e = ("ok", tree.from_tla(t[4])) if t[3] == 1 else ("err",)
        o = tuple(a) if a[0] in ("CRASH", "HANG") else ("ok", tree.from_dump(a[4])) if a[0] == "1" else ("err",)
        if e[0] == "ok": ok.append((k, e[1]))
        if o != e: c.fail("read:%s:%d" % (k[0].hex(), k[1]), text=show(k[0]), trim=k[1], expected=e, observed=o)
    c.notes["xml_texts_read"] = c.notes.get("xml_texts_read", 0) + len(ok)
    c.notes["xml_texts_rejected"] = c.notes.get("xml_texts_rejected", 0) + len(keys) - len(ok)
    for k, ev in ok[7::max(1, len(ok) // 3)]: c.sample({"xml": show(k[0]), "trim": k[1], "document": tree.show(ev)[:200]}, 8)
