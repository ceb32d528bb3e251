import re, vf, gen
from vf import hx, unhx, tla_set, show

B = lambda *xs: [x if isinstance(x, bytes) else x.encode() for x in xs]
# name, prefixes, chunks, max chunks quick, thorough
SWEEPS = [
    ("structure", B(""), B("a", "=", "(", ")", "{", "}", "'", " ", "\n"), 5, 6),
    ("quotes", B("", "x=", "x=(", "x(y=", "x(y=("), B("'", "''", "a", " ", "\n", "}", ")"), 5, 6),
    ("entities", B("", "x=", "x=(", "x(y=", "x(y=("), B("&", "#", "x", "1", "a", ";", " ", ")", "\""), 4, 5),
    ("comments", B("", "x{", "x="), B("/", "*", "a", "\n", "//", "*/"), 5, 7),
    ("whitespace", B("", "x=", "x(", "x'"), B("a", "=", "\t", "\r", "\n", b"\xc2", b"\xa0", b"\xc2\xa0", b"\xe2\x80\x82", b"\xe2\x80"), 4, 5),
    ("names", B("", "x(", "x{"), B("a", ":", ".", "#", "-", "_", "9", "xmlns", "=", " "), 4, 5),
    ("doctype", B("", "a{", "//\n"), B("!DOCTYPE", "?", "p", "=", " ", "\t", "\n", "!", "'"), 4, 5),
    ("lost", B("a =\n", "a = b", "a =\n b", "//=\n", "a='=\n'\n"), B("\n", "b", "=", " ", "(", "{", "}", "'", "\t"), 4, 5),
    ("suspicious", B("x='a"), B("'", "b", " ", ",", "=", "\n", "'''"), 5, 6),
    ("values", B("x=", "x(y="), B("/", "*", "=", "&", "(", "a", "{", "\"", "}", ")", " "), 4, 5),
    ("position", B("x=", "'"), B("\xe5", "\u20ac", "\n", "'", " ", "a", ",", "\r"), 4, 5),
    ("detect", B(""), B("<", "!", "html", "?xml", "--", "doctype", " ", ">", "DOCTYPE", "HTML"), 4, 5),
    ("detect2", B(""), B("true", "null", "false", "{", "[", "\"", "1", "-", "\n", " ", "t", "\t"), 4, 4),
]


def expectation(t):
    """From a CASE printed by LexGen to the comparable tuple."""
    s = bytes(t[1])
    if t[2] == "ok": return ("ok", tuple((x[0], s[x[1] - 1:x[2] - 1], x[3], x[4]) for x in t[3]))
    if t[2] == "notxmq": return ("notxmq",)
    return ("err", t[3], t[4], t[5], tuple(t[6]))


UNC = {"n": 10, "t": 9, "r": 13, "a": 7, "b": 8, "f": 12, "v": 11, "\\": 92, '"': 34}


def un_c(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] != "\\": out.append(ord(s[i])); i += 1
        elif s[i + 1] in UNC: out.append(UNC[s[i + 1]]); i += 2
        elif s[i + 1] == "x": out.append(int(s[i + 2:i + 4], 16)); i += 4
        else: out.append(int(s[i + 1:i + 4], 8)); i += 4
    return bytes(out)


TOK = re.compile(r'\[(\w+) "((?:[^"\\]|\\.)*)" (\d+):(\d+)\]', re.S)


def tokens(raw):
    s = raw.decode("latin1").rstrip("\n")
    out, at = [], 0
    for m in TOK.finditer(s):
        if m.start() != at: return None
        out.append((m.group(1), un_c(m.group(2)), int(m.group(3)), int(m.group(4)))); at = m.end()
    return out if at == len(s) else None


LOC = re.compile(rb"^SRC:(\d+):(\d+): (error|warning): ", re.M)


def observed(f):
    """From the answer of the tok command to the comparable tuple."""
    if f[0] in ("CRASH", "HANG", "SKIPPED"): return tuple(f)
    if f[0] == "1":
        t = tokens(unhx(f[4]) or b"")
        return ("ok", tuple(t)) if t is not None and f[1] == "0" else ("garbled", f[4])
    if f[1] == "3": return ("notxmq",)
    # Only the locations are compared, not the wording or the excerpt of the message.
    err, warn = (0, 0), (0, 0)
    for m in LOC.finditer(unhx(f[3]) or b""):
        p = (int(m.group(1)), int(m.group(2)))
        if m.group(3) == b"error": err = p
        else: warn = p
    return ("err", int(f[1])) + err + (warn,)


JUNK = [";'=", "*/", "=x", "\n{", "'''"]


def replay_generated(c, only=None, prop_kinds=None):
    sweeps = [s for s in SWEEPS if only is None or s[0] in only]
    rec = ", ".join("[pre |-> %s, chunks |-> %s, max |-> %d]" % (tla_set(p), tla_set(ch), nt if c.thorough else nq) for _, p, ch, nq, nt in sweeps)
    mc = "---- MODULE MC ----\nEXTENDS LexGen\nS == <<%s>>\n====\n" % rec
    r = c.tlc("MC", "CONSTANT Sweeps <- S\nINIT Init\nNEXT Next\nINVARIANTS Verdict Tiled Located\n", extra=mc, timeout=3600)
    if r.violated: raise vf.InfraError("specification invariant %s violated\n%s" % (r.violated, r.tail))
    cases = {}
    for t in r.printed: cases[bytes(t[1])] = t
    keys = sorted(cases)
    ans = c.run1(["tok\t" + hx(k) for k in keys], junk=JUNK[c.seed % len(JUNK)])
    for k, a in zip(keys, ans):
        o = observed(a)
        if o[0] == "SKIPPED": continue
        c.replayed += 1
        e = expectation(cases[k])
        if o != e: c.fail("tok:" + k.hex(), text=show(k), hex=k.hex(), expected=e, observed=o)
    for k in keys[5::max(1, len(keys) // 4)]: c.sample({"text": show(k), "expected": str(expectation(cases[k]))[:200]}, 4)
    c.notes["sweeps"] = [[s[0], s[4] if c.thorough else s[3]] for s in sweeps]
    c.notes["texts_enumerated"] = len(keys)


def random_texts(c, n):
    r = c.rng
    out = []
    for i in range(n):
        b = gen.xmq_text(r, r.choice([1, 2, 3]))
        if i % 2: b = gen.mutate(r, b)
        # Whole characters only: the debug output that is parsed back copies broken ones verbatim.
        out.append(b[:700].decode('utf8', 'ignore').encode())
    return out


def validate_random(c, nq=1500, nt=40000):
    texts = random_texts(c, nt if c.thorough else nq)
    ans = c.run1(["tok\t" + hx(t) for t in texts], junk=JUNK[c.seed % len(JUNK)])
    recs, idx = [], []
    for t, a in zip(texts, ans):
        o = observed(a)
        if o[0] == "SKIPPED": continue
        if o[0] in ("CRASH", "HANG", "garbled"):
            c.fail("tok:" + t.hex(), text=show(t), hex=t.hex(), observed=o); continue
        ok = o[0] == "ok"
        recs.append({"s": list(t), "ok": ok, "err": 0 if ok else (3 if o[0] == "notxmq" else o[1]),
                     "line": 0 if ok or o[0] == "notxmq" else o[2], "col": 0 if ok or o[0] == "notxmq" else o[3],
                     "sl": 0 if ok or o[0] == "notxmq" else o[4][0], "sc": 0 if ok or o[0] == "notxmq" else o[4][1],
                     "toks": [[x[0], list(x[1]), x[2], x[3]] for x in o[1]] if ok else []})
        idx.append((t, o))
    for b in range(0, len(recs), 4000):
        for mm in c.validate("LexTrace", recs[b:b + 4000]):
            t, o = idx[b + mm[1] - 1]
            c.fail("tok:" + t.hex(), text=show(t), hex=t.hex(), mismatch=mm, observed=o)
    c.notes["random_texts_accepted"] = sum(1 for _, o in idx if o[0] == "ok")
    c.notes["random_texts_rejected"] = sum(1 for _, o in idx if o[0] != "ok")
