"""Renderings: what the printer and the tokenizer draw in html, tex and on a terminal is read back by the specification."""
import vf, tree, lex
from vf import hx, unhx, show

FORMATS = [("html", "render=html,color,raw"), ("tex", "render=tex,color,raw"), ("term", "render=term,color")]
MORE = [("html", "render=html,color"), ("term", "render=term,color,dark"), ("tex", "render=tex,color"), ("html", "render=html,raw"), ("term", "render=term")]


def documents(c, docs, formats=FORMATS, layouts=("", ",compact"), more=7):
    """docs: (events, json). Thorough: every document in all main formats and layouts; quick: in one or two of them in turn. Every `more`th in the other settings as well."""
    groups, ids = [], []
    for n, (ev, tl) in enumerate(docs):
        sets = [(f, s + l) for f, s in formats for l in layouts]
        if not c.thorough: sets = [x for i, x in enumerate(sets) if (i + n) % 2 == 0]
        if n % more == 0: sets += [(f, s) for f, s in MORE]
        for l in layouts:
            own = [x for x in sets if ("compact" in x[1]) == (l != "")]
            groups.append(["build\t0\t" + tree.to_build(ev), "print\t0\tfmt=xmq" + l] + ["print\t0\tfmt=xmq," + s for _, s in own])
            ids.append((ev, own))
    recs, at = [], []
    for (ev, own), a in zip(ids, c.run(groups)):
        if any(f[0] in ("CRASH", "HANG") for f in a):
            c.fail("render:" + tree.to_build(ev), document=tree.show(ev), observed=a, settings=own); continue
        if a[-1][0] == "SKIPPED": continue
        s = unhx(a[1][0]) or b""
        if s.endswith(b"\n"): s = s[:-1]
        rs = [(f, st, unhx(x[0]) or b"") for (f, st), x in zip(own, a[2:])]
        add(recs, at, s, False, [(f, not (f == "term" and "color" not in st), r, "render:%s:%s" % (st, tree.to_build(ev))) for f, st, r in rs])
    return recs, at


def add(recs, at, s, exact, rs):
    if not rs: return
    recs.append({"s": list(s), "exact": exact, "rs": [{"fmt": f, "r": list(r), "marks": m} for f, m, r, _ in rs]})
    at.append((s, rs))


def texts(c, items):
    """Accepted texts, rendered by the tokenizer."""
    lines, ids = [], []
    for t in items:
        for f in ("html", "tex", "term"):
            lines.append("tok\t%s\t%s" % (hx(t), f)); ids.append((t, f))
    recs, at, by = [], [], {}
    for (t, f), a in zip(ids, c.run1(lines)):
        if a[0] in ("CRASH", "HANG"):
            c.fail("tokrender:%s:%s" % (f, t.hex()), text=show(t), observed=a); continue
        if a[0] != "1": continue
        r = unhx(a[4]) or b""
        if f == "term": r += b"\n"   # the tokenizer adds no final newline
        by.setdefault(t, []).append((f, True, r, "tokrender:%s:%s" % (f, t.hex())))
    for t, rs in by.items(): add(recs, at, t, True, rs)
    return recs, at


def judge(c, recs, at, batch=20000):
    n = 0
    for b in range(0, len(recs), batch):
        for mm in c.validate("RenderTrace", recs[b:b + batch], heap="10g"):
            s, rs = at[b + mm[1] - 1]
            f, m, r, key = rs[mm[3] - 1]
            c.fail(key, reason=mm[2], text=show(s), rendering=show(r))
    for s, rs in at[3::max(1, len(at) // 3)]: c.sample({"text": show(s), "rendering": show(rs[0][2])[-400:]}, 4)
