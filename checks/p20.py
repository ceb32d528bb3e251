"""P20: what a call gives does not depend on the calls before it, and looking changes nothing."""
import vf
from vf import hx, unhx, show

TEXTS = [  # type, flags, text
    ("xmq", 0, b"a { // one --- two\n b(x=1 y='p q')='t1\n t2' c { 'u' &nbsp; &#10; d } /* m\n n */ }"),
    ("xmq", 8, b"!DOCTYPE=html html { style { 'a' &#10; 'b>' &x; } body { 'p' &#65; 'q' script=&#x42; } }"),
    ("detect", 0, b"<?xml version='1.0'?><!--c -\xe2\x90\x90- d--><r xmlns='u:d' xmlns:q='u:q' q:k='v'> <q:s>  one\n   two </q:s><![CDATA[<&>]]><?pi v?></r>"),
    ("detect", 1, b"<r>\n  <s>  one\n   two </s>\n  <!-- c\n   d -->\n</r>"),
    ("html", 0, b"<html><head><style>a > b { c:d }</style><script>if (1<2) x();</script></head><body><p>t<b>u</b> v<br></p></body></html>"),
    ("json", 0, b'{"a":[1,true,null,"s\\n\\u00e5"],"b c":{"_":"x","":{}},"e":[],"f":-1.5e3}'),
    ("text", 0, b"line1\n 'line2'\n\tline3 \xc3\xa5"),
    ("detect", 0, b"<?pi first?>x=1 // after"),
    ("xmq", 0, b"x { ''''''''' y=''' z=( ' l'\n&#9;'r ') }"),
    ("detect", 0, b"a=1 }"), ("xml", 0, b"<a><b></a>"), ("json", 0, b'{"a":tru}'), ("html", 0, b"nothing=1"),
]
WAYS = ["buf", "file", "stdin", "bits"]
PRINTS = ["fmt=xmq", "fmt=xmq,compact", "fmt=xmq,enl,e7,et", "fmt=xmq,indent=0", "fmt=htmq", "fmt=xml", "fmt=xml,omit", "fmt=html", "fmt=json", "fmt=json,compact", "fmt=text", "fmt=clines"]
RENDERS = ["fmt=xmq,render=html,color", "fmt=xmq,render=tex,color", "fmt=xmq,render=term,color,dark", "fmt=xmq,render=raw"]
ASIDE = ["tok\t" + hx(b"a { b=1 /* c\n d */ }"), "tok\t" + hx(b"a { 'b\n' c='d"), "tok\t" + hx(b"a(b='c d') = &e;") + "\tterm", "detect\t" + hx(b" <html>"), "quote\t" + hx(b"it's\n\"so\""), "line\t0\t0\t" + "\t".join(map(hx, (b"e", b"k=", b"v w"))),
         "ixml\t8\t0\t" + hx(b"S = 'a', b*. b = ['0'-'9'].") + "\t" + hx(b"a12"), "ixml\t8\t0\t" + hx(b"S = 'a', b*. b = ['0'-'9'].") + "\t" + hx(b"ax"), "ixml\t8\t0\t" + hx(b"S = 'a', .") + "\t" + hx(b"a")]
LOOKS = ["root\t@", "get\t@\t" + hx(b"//text()"), "each\t@\t%s\t-1" % hx(b"//node()|//@*"), "each\t@\t%s\t2" % hx(b"//*"), "dump\t@"]


def calls():
    """(kind, command with @ for the slot)."""
    out = []
    for n, (t, fl, text) in enumerate(TEXTS):
        for w in WAYS if n % 3 == 0 or len(text) > 80 else ["buf"]: out.append(("load", "load\t@\t%s\t%s\t%d\t-\t%s" % (w, t, fl, hx(text))))
    out += [("trim", "trim\t@\t%d" % f) for f in (2, 4)]
    out += [("show", "printw\t@\t%s\t%s" % (w, p)) for p in PRINTS for w in ("memory", "again")]
    out += [("show", "printw\t@\twriter\t" + p) for p in PRINTS[1::2] + PRINTS[5:8] + RENDERS[:1]]
    out += [("show", "printw\t@\tmemory\t" + p) for p in RENDERS]
    out += [("show", l) for l in LOOKS]
    out += [("aside", l) for l in ASIDE]
    return list(dict.fromkeys(out))


def on(cmd, s): return cmd.replace("@", str(s))


def plain(dump): return dump.replace(" S:", " T:")  # cdata sections are texts


def wrong(ans): return any(f and f[0] in ("CRASH", "HANG") for f in ans)


def fresh(c, cs):
    """What every call gives in a program of its own: the documents there are, and the answers."""
    docs, make, loads, trims, answers = [], [], {}, {}, {}
    note = lambda cmds, ans: c.fail("alone:" + " ; ".join(cmds), commands=cmds, observed=[f for f in ans if f][-1]) if wrong(ans) else None

    def doc(dump, cmds):
        dump = plain(dump)
        if dump not in docs: docs.append(dump); make.append(cmds)
        return docs.index(dump) + 1
    groups = [[on(cmd, 1)] for k, cmd in cs if k in ("load", "aside")]
    at = dict(zip([n for n, (k, _) in enumerate(cs) if k in ("load", "aside")], c.run(groups, alone=True)))
    for n, ans in at.items():
        note([on(cs[n][1], 1)], ans)
        if cs[n][0] == "load":
            loads[n] = doc(ans[0][3], [on(cs[n][1], 1)]) if ans[0][0] == "1" else 0
        answers[n, 0] = ans[0]
    todo = 0
    while todo < len(docs) and todo < 60:
        d = todo + 1
        ns = [n for n, (k, _) in enumerate(cs) if k in ("trim", "show")]
        groups = [make[todo] + [on(cs[n][1], 1)] for n in ns]
        for n, g, ans in zip(ns, groups, c.run(groups, alone=True)):
            note(g, ans)
            answers[n, d] = ans[-1]
            if cs[n][0] == "trim": trims[n, d] = doc(ans[-1][0], g)
        todo += 1
    return docs, make, loads, trims, answers


def same_answer(a, b):
    """Error texts name the source, which may be a file or stdin."""
    f = lambda x: [show(unhx(v)).split(":", 1)[-1] if i == 2 and len(x) > 3 and x[0] == "0" and v not in ("-", "=") else v for i, v in enumerate(x)]
    return a == b or f(a) == f(b)


def sizes(c):
    """Texts of every size around those of the buffers: all that is in the file is read, all that is printed is written."""
    ns = sorted({m * k + d for m in (1024, 10000) for k in range(1, 4) for d in range(-9, 3)} | set(range(8, 40)) | {4096, 8192, 65536})
    if c.thorough: ns = sorted(set(ns) | set(range(1, 3200, 3)) | set(range(9900, 10100)) | set(range(19900, 20100)))
    groups, want = [], []
    for n in ns:
        text = bytes(97 + i % 26 for i in range(n))
        for w in WAYS:
            groups.append(["load\t1\t%s\txmq\t0\t-\t%s" % (w, hx(b"x=" + text)), "printw\t1\tmemory\tfmt=xmq,compact", "printw\t1\twriter\tfmt=xml,omit", "printw\t1\tagain\tfmt=json,compact", "printw\t1\tmemory\tfmt=text",
                           "tok\t%s\t%s" % (hx(b"x=" + text), w)])
            want.append((n, text))
    first = None
    for g, (n, text), ans in zip(groups, want, c.run(groups)):
        c.replayed += 1
        way = g[0].split("\t")[2]
        if way == WAYS[0]: first = ans
        if wrong(ans): got, ok = [f for f in ans if f][-1], False
        else:
            got = [unhx(f[0]) for f in ans[1:5]]
            ok = ans[0][0] == "1" and " T:%s " % hx(text) in ans[0][3] and got[0] == b"x=" + text + b"\n" and got[1] == b"<x>" + text + b"</x>\n" and text in got[2] and got[3] == text and \
                ans[0] == first[0] and ans[5] == first[5] and ans[5][0] == "1" and text in unhx(ans[5][4])
        if not ok: c.fail("size:%d:%s" % (n, way), size=n, way=way, observed=[str(v)[:300] for v in got])


def run(c):
    c.build("harness", "harness_asan")
    cs = calls()
    docs, make, loads, trims, answers = fresh(c, cs)
    c.notes["calls"], c.notes["documents"] = len(cs), len(docs)
    kinds = lambda *ks: [n for n, (k, _) in enumerate(cs) if k in ks]
    # The way in makes no difference.
    byload = {}
    for n in kinds("load"):
        f = cs[n][1].split("\t")
        byload.setdefault((f[3], f[4], f[6]), []).append(n)
    for ns in byload.values():
        for n in ns[1:]:
            c.replayed += 1
            if not same_answer(answers[ns[0], 0], answers[n, 0]): c.fail("way:" + cs[n][1], commands=[cs[ns[0]][1], cs[n][1]], expected=answers[ns[0], 0], observed=answers[n, 0])
    # Nor does the way out.
    byprint = {}
    for n in kinds("show"):
        f = cs[n][1].split("\t")
        if f[0] == "printw": byprint.setdefault(f[3], []).append(n)
    for ns in byprint.values():
        for d in range(1, len(docs) + 1):
            for n in ns[1:]:
                if answers[ns[0], d] != answers[n, d]: c.fail("out:%s:%d" % (cs[n][1], d), commands=make[d - 1] + [cs[n][1]], expected=show(unhx(answers[ns[0], d][0])), observed=show(unhx(answers[n, d][0])) if answers[n, d][0] != "CRASH" else answers[n, d])
    sizes(c)
    tla = []
    for n, (k, _) in enumerate(cs):
        if k == "load": tla.append('[k |-> "load", to |-> %d]' % loads[n])
        elif k == "trim": tla.append('[k |-> "trim", map |-> <<%s>>]' % ", ".join(str(trims.get((n, d), 0)) for d in range(1, len(docs) + 1)))
        else: tla.append('[k |-> "%s"]' % k)
    tla.append('[k |-> "free"]')
    cs = cs + [("free", "free\t@")]
    every = list(range(len(cs)))
    first = sorted(set(loads.values()) - {0})
    menu = lambda ns: "{%s}" % ", ".join(str(n + 1) for n in ns)
    some = [n for n in every if n % 3 == 0 or cs[n][0] == "trim"]
    starts = [(d, first[(i + 1) % len(first)], [every, every if c.thorough else some + [n for n in every if n % 3 == (i + 1) % 3][:12]]) for i, d in enumerate(first)]
    pick = lambda r, m: [n for n in every if n % m == r % m]
    starts += [(d, first[(i + 2) % len(first)], [pick(i, 7), pick(i + 1, 7), pick(i + 2, 7)] + ([pick(i + 3, 5)] if c.thorough else [])) for i, d in enumerate(first)]
    mc = "---- MODULE MC ----\nEXTENDS Session\nC == <<%s>>\nS == <<%s>>\n====\n" % (", ".join(tla), ", ".join("[from |-> <<%d, %d>>, menus |-> <<%s>>]" % (a, b, ", ".join(map(menu, ms))) for a, b, ms in starts))
    r = c.tlc("MC", "CONSTANT Calls <- C\nCONSTANT Starts <- S\nINIT Init\nNEXT Next\nPROPERTY Apart\n", extra=mc, timeout=3600, heap="10g")
    if r.violated: raise vf.InfraError("Session: %s violated\n%s" % (r.violated, r.tail))
    runs = sorted((t[1:] for t in r.printed if t[0] == "RUN"), key=str)
    c.notes["sessions"] = len(runs)
    groups, meta = [], []
    for w, hist, slots in runs:
        a, b, _ = starts[w - 1]
        g = list(make[a - 1]) + [x.replace("\t1\t", "\t2\t", 1) for x in make[b - 1]]
        n0 = len(g)
        g += [on(cs[n - 1][1], s) for s, n in hist] + ["dump\t%d" % (i + 1) for i, d in enumerate(slots) if d]
        groups.append(g); meta.append((n0, (a, b), hist, slots))

    def judge(groups, meta, kind):
        for g, (n0, st, hist, slots), ans in zip(groups, meta, c.run(groups, kind=kind)):
            if wrong(ans): c.fail("session:" + " ; ".join(g), commands=g, observed=[f for f in ans if f][-1]); continue
            if any(f and f[0] == "SKIPPED" for f in ans): continue
            c.replayed += 1
            now = list(st)
            for (s, n), f in zip(hist, ans[n0:]):
                k = cs[n - 1][0]
                want = answers[n - 1, 0] if k in ("load", "aside") else ["1"] if k == "free" else answers[n - 1, now[s - 1]]
                if [plain(x) for x in f] != [plain(x) for x in want]: c.fail("session:" + " ; ".join(g), commands=g, call=on(cs[n - 1][1], s), expected=want, observed=f); break
                now[s - 1] = loads[n - 1] if k == "load" else trims[n - 1, now[s - 1]] if k == "trim" else 0 if k == "free" else now[s - 1]
            else:
                left = [docs[d - 1] for d in slots if d]
                got = [plain(f[0]) for f in ans[n0 + len(hist):]]
                if left != got: c.fail("session:" + " ; ".join(g), commands=g, reason="a document was changed", expected=left, observed=got)
    judge(groups, meta, "harness")
    step = 6 if c.thorough else 25
    judge(groups[::step], meta[::step], "harness_asan")
    for g, m in list(zip(groups, meta))[11::max(1, len(groups) // 3)]: c.sample({"session": g, "documents after it": m[3]}, 4)
    return c.finish(rule="")
