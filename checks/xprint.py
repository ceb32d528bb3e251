"""Printing: TLC enumerates documents, the library prints them, TLC reads the printed text back with the specification."""
import vf, tree, lex
from vf import hx, unhx, tla_bytes, tla_set, show
from lex import B


def t_bytes(x): return tla_bytes(x if isinstance(x, bytes) else x.encode())
def t_opt(x): return "<<>>" if x is None else "<<%s>>" % t_bytes(x)


def t_event(e):
    k = e[0]
    if k == "E": return '<<"E", %s, %s, %s>>' % (t_bytes(e[1]), t_opt(e[2]), t_opt(e[3]))
    if k == "N": return '<<"N", %s, %s>>' % (t_opt(e[1]), t_opt(e[2]))
    if k == "A": return '<<"A", %s, %s, <<%s>>, %s>>' % (t_bytes(e[1]), t_opt(e[2]), ", ".join(t_event(x) for x in e[3]), t_opt(e[4]))
    if k == "P": return '<<"P", %s, %s>>' % (t_bytes(e[1]), t_bytes(e[2]))
    if k == ")": return '<<")">>'
    return '<<"%s", %s>>' % (k, t_bytes(e[1]))


def t_doc(ev): return "<<%s>>" % ", ".join(map(t_event, ev))
def E(n, p=None, h=None): return ("E", n, p, h)
def T(s): return ("T", s)
def C(s): return ("C", s)
def R(s): return ("R", s)
def A(n, *kids, p=None, h=None): return ("A", n, p, kids, h)
X = (")",)
HOLE = b"\0"


def enumerate_docs(c, docs, holes):
    d = ", ".join("[pre |-> {%s}, menu |-> {%s}, max |-> %d]" % (", ".join(map(t_doc, pre)), ", ".join(map(t_event, menu)), nt if c.thorough else nq)
                  for _, pre, menu, nq, nt in docs)
    h = ", ".join("[docs |-> {%s}, chunks |-> %s, max |-> %d]" % (", ".join(map(t_doc, ds)), tla_set(ch), nt if c.thorough else nq)
                  for _, ds, ch, nq, nt in holes)
    mc = "---- MODULE MC ----\nEXTENDS DocGen\nD == <<%s>>\nH == <<%s>>\n====\n" % (d, h)
    r = c.tlc("MC", "CONSTANT Docs <- D\nCONSTANT Holes <- H\nINIT Init\nNEXT Next\n", extra=mc, timeout=3600)
    out = {}
    for t in r.printed: out[tree.from_tla(t[1])] = t[1]
    c.notes["documents_enumerated"] = len(out)
    return [(k, out[k]) for k in sorted(out, key=lambda k: (len(k), str(k)))]


def print_docs(c, docs, settings, kind="harness"):
    """docs: (events, the same as json for TLC). Returns the records to validate."""
    groups, ids = [], []
    for ev, tl in docs:
        for flags in settings:
            groups.append(["build\t0\t" + tree.to_build(ev), "reprint\t0\t" + ",".join(flags)])
            ids.append((ev, tl, flags))
    recs, at = [], []
    for (ev, tl, flags), a in zip(ids, c.run(groups, kind=kind)):
        f = a[-1]
        if f[0] == "SKIPPED": continue
        if f[0] in ("CRASH", "HANG"):
            c.fail("print:%s:%s" % (",".join(flags), tree.to_build(ev)), document=tree.show(ev), settings=flags, observed=f); continue
        s, again = unhx(f[0]) or b"", unhx(f[1]) or b""
        recs.append({"doc": tl, "s": list(s), "flags": list(flags), "again": list(again)})
        at.append((ev, flags, s, again))
    return recs, at


def check_docs(c, docs, settings, batch=40000):
    recs, at = print_docs(c, docs, settings)
    for b in range(0, len(recs), batch):
        for mm in c.validate("PrintTrace", recs[b:b + batch], heap="10g"):
            ev, flags, s, again = at[b + mm[1] - 1]
            c.fail("print:%s:%s" % (",".join(flags), tree.to_build(ev)), document=tree.show(ev), settings=flags, reason=mm[2], printed=show(s), again=show(again))
    for ev, flags, s, again in at[3::max(1, len(at) // 4)]: c.sample({"document": tree.show(ev), "settings": flags, "printed": show(s)}, 5)
