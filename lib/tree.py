"""Documents as event sequences: from the harness, from TLC, to TLC, to the harness. No semantics here."""
from vf import hx, unhx


def from_dump(s):
    ev = []
    for tok in s.split(" "):
        if tok in ("", "[", "]"): continue
        f = tok.split(":")
        k = f[0]
        if k == "E": ev.append(("E", unhx(f[1]), unhx(f[2]), unhx(f[3])))
        elif k == "N":
            if f[2] != "-": ev.append(("N", unhx(f[1]), unhx(f[2])))  # a prefix that is only used has no href
        elif k == "A":
            kids = () if f[3] == "-" else tuple((x[0], unhx(x[1:])) for x in f[3].split(","))
            ev.append(("A", unhx(f[1]), unhx(f[2]), kids, unhx(f[4])))
        elif k == "P": ev.append(("P", unhx(f[1]), unhx(f[2]) or b""))
        elif k == ")": ev.append((")",))
        elif k in "TSCRD": ev.append((k, unhx(f[1])))
        else: ev.append((k, tok))
    return tuple(ev)


def from_tla(evs):
    out = []
    o = lambda x: None if not x else bytes(x[0])
    for e in evs:
        k = e[0]
        if k == "E": out.append(("E", bytes(e[1]), o(e[2]), o(e[3])))
        elif k == "N": out.append(("N", o(e[1]), o(e[2])))
        elif k == "A": out.append(("A", bytes(e[1]), o(e[2]), tuple((x[0], bytes(x[1])) for x in e[3]), o(e[4])))
        elif k == "P": out.append(("P", bytes(e[1]), bytes(e[2])))
        elif k == ")": out.append((")",))
        else: out.append((k, bytes(e[1])))
    return tuple(out)


def to_tla(ev):
    """JSON for ndJsonDeserialize (None becomes an empty sequence)."""
    o = lambda x: [] if x is None else [list(x)]
    out = []
    for e in ev:
        k = e[0]
        if k == "E": out.append(["E", list(e[1]), o(e[2]), o(e[3])])
        elif k == "N": out.append(["N", o(e[1]), o(e[2])])
        elif k == "A": out.append(["A", list(e[1]), o(e[2]), [[x[0], list(x[1])] for x in e[3]], o(e[4])])
        elif k == "P": out.append(["P", list(e[1]), list(e[2] or b"")])
        elif k == ")": out.append([")"])
        else: out.append([k, list(e[1] or b"")])
    return out


def to_build(ev):
    """The events argument of the build command."""
    out = ["["]
    for e in ev:
        k = e[0]
        if k == "E": out.append("E:%s:%s:%s" % (hx(e[1]), hx(e[2]), hx(e[3])))
        elif k == "N": out.append("N:%s:%s" % (hx(e[1]), hx(e[2])))
        elif k == "A": out.append("A:%s:%s:%s" % (hx(e[1]), hx(e[2]), "-" if not e[3] else ",".join(x[0] + hx(x[1]) for x in e[3])))
        elif k == "P": out.append("P:%s:%s" % (hx(e[1]), hx(e[2])))
        elif k == ")": out.append(")")
        else: out.append("%s:%s" % (k, hx(e[1])))
    return " ".join(out + ["]"])


def show(ev):
    return " ".join("".join([e[0]] + [":" + (x.decode("utf8", "backslashreplace") if isinstance(x, bytes) else str(x)) for x in e[1:]]) for e in ev)
