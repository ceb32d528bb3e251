"""Workload generators (inputs only, no expectations)."""
import random

WORDS = ["a", "b", "x", "car", "_", "z9", "name", "head", "p:q", "w-1", "k.v", "svg:g"]
TEXTS = ["1", "abc", "/x", "http://a.b/c?d=1", "12:30", "*", "å", "€5", "x=y", "a&b", "-", "true", "99%", "a/b//c", "😀"]


def quote(r):
    body = "".join(r.choice(["a", "b", " ", "  ", "\n", "'", "''", "x y", "\t", "å", "€", "{", "}", "(", "=", "//", "*/", "&", "\u00a0", "\u2003", "\r\n"]) for _ in range(r.randint(0, 8)))
    n = 1
    while ("'" * n) in body or n == 2 or body[:1] == "'" or body[-1:] == "'":
        n += 1
        if n > 6: break
    if body.startswith("'") or body.endswith("'"): body = "\n" + body + "\n"
    if not body: return "''"
    return "'" * n + body + "'" * n


def entity(r): return r.choice(["&amp;", "&nbsp;", "&#10;", "&#x41;", "&#x1F600;", "&lt;", "&foo.bar;", "&#39;", "&abc", "&10;"])
def ws(r, p=0.6): return "".join(r.choice([" ", " ", "\n", "  ", "\r\n", " \u00a0", " \u2001"]) for _ in range(r.randint(0, 2))) if r.random() < p else ""


def comment(r):
    if r.random() < 0.5: return r.choice(["//", "///", "// "]) + r.choice(["", "c", " hi ", "*x*", "å", "' = {"]) + "\n"
    n = r.choice([1, 1, 2, 3])
    parts = ["".join(r.choice(["a", " ", "\n", "*", "/" if n > 1 else "b", "**", "å"]) for _ in range(r.randint(0, 6))) for _ in range(r.choice([1, 1, 2, 3]))]
    parts = [p.replace("*" + "/" * n, "") for p in parts]
    return "/" * n + "*" + ("*" + "/" * n + "*").join(parts) + "*" + "/" * n


def compound(r):
    return "(" + "".join(ws(r) + r.choice([quote, entity])(r) + ws(r, 0.8) for _ in range(r.randint(0, 4))) + ")"


def value(r):
    x = r.random()
    if x < 0.35: return r.choice(TEXTS)
    if x < 0.65: return quote(r)
    if x < 0.8: return entity(r)
    return compound(r)


def attrs(r):
    out = []
    for i in range(r.randint(0, 4)):
        k = r.choice(["a", "b", "id", "xmlns", "xmlns:p", "p:a", "class", "x.y", "4", "A", "S"])
        out.append(k + (ws(r, 0.2) + "=" + ws(r, 0.2) + value(r) if r.random() < 0.8 else ""))
    return "(" + ws(r, 0.3) + (" " if r.random() < 0.9 else "\n").join(out) + ws(r, 0.3) + ")"


def content(r, d):
    out = []
    for _ in range(r.randint(0, 4)):
        x = r.random()
        if x < 0.6: out.append(element(r, d))
        elif x < 0.75: out.append(quote(r))
        elif x < 0.83: out.append(entity(r))
        elif x < 0.95: out.append(comment(r))
        else: out.append(r.choice(["?pi=x", "?p = 'a b'", "?xml", "!DOCTYPE = html", "!DOCTYPE = 'html x'"]))
        out.append(ws(r, 0.9) or r.choice(["", " "]))
    return "".join(out)


def element(r, d=3):
    s = r.choice(WORDS)
    if r.random() < 0.35: s += ws(r, 0.1) + attrs(r)
    x = r.random()
    if x < 0.4: s += ws(r, 0.3) + "=" + ws(r, 0.3) + value(r)
    elif x < 0.8 and d > 0: s += ws(r, 0.3) + "{" + ws(r, 0.4) + content(r, d - 1) + "}"
    return s + " "


def xmq_text(r, d=3):
    return (ws(r, 0.2) + content(r, d) + element(r, d) + content(r, 1)).encode()


NOISE = [b"'", b"''", b"'''", b"=", b"(", b")", b"{", b"}", b" ", b"\n", b"\t", b"\r", b"&", b";", b"#", b"/", b"*", b"//", b"/*", b"*/", b"a", b":", b"!", b"?", b"\xc2\xa0", b"\xe2\x80\x81", b"\xc3\xa5", b"@", b",", b"\"", b"<", b"!DOCTYPE", b"xmlns", b"\xe2\x80", b"\xf0\x9f\x98\x80", b"\x80", b"s'x"]


def mutate(r, b, k=None):
    b = bytearray(b)
    for _ in range(k or r.randint(1, 3)):
        x = r.random()
        p = r.randint(0, len(b))
        if x < 0.4: b[p:p] = r.choice(NOISE)
        elif x < 0.7 and b:
            q = min(len(b), p + r.randint(1, 3)); del b[p:q]
        elif x < 0.85: b = b[:p]
        elif b:
            q = r.randint(0, len(b)); b[p:p] = b[q:q + r.randint(1, 8)]
    return bytes(b).replace(b"\0", b"0")
