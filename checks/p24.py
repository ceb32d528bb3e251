"""P24: which documents a schema allows."""
import itertools, os
import vf, tree, xprint, xcli
from vf import hx, unhx, show
from xprint import E, T, C, R, A, X, t_doc, t_bytes

P = lambda t, s: ("P", t, s)
XS = b"http://www.w3.org/2001/XMLSchema"
URN = b"urn:t"
a, b, c_, d, x, y = b"a", b"b", b"c", b"d", b"x", b"y"


def I(n, **attrs): return (E(n.encode(), b"xs", XS),) + tuple(A(k.encode(), T(v.encode())) for k, v in attrs.items())
def schema(*ev, **attrs): return (E(b"schema", b"xs", XS), ("N", b"xs", XS)) + tuple(A(k.encode(), T(v.encode())) for k, v in attrs.items()) + tuple(e for q in ev for e in q)
END = (X,)
COMPLEX = I("complexType")
IN_A = I("element", name="a") + COMPLEX
def leaf(n, **attrs): return I("element", name=n, **dict(dict(type="xs:string"), **attrs)) + (X,)
def att(n, **attrs): return I("attribute", name=n, **dict(dict(type="xs:string"), **attrs)) + (X,)
SEQ, CHOICE, ALL = I("sequence"), I("choice"), I("all")
AA = lambda *s: [A(k, T(v) if v else T(b"")) for k, v in s]


def el(n, *body): return [E(n)] + [e for q in body for e in (q if isinstance(q, list) else [q])] + [X]
def docs(bodies, root=a): return [el(root, *q) for q in bodies]


B1, C1, D1, BX = el(b, T(b"1")), el(c_, T(b"t")), el(d), el(b, T(b"x"))
ITEMS = [B1, C1, D1]
CONTENTS = [list(q) for n in range(4) for q in itertools.product(ITEMS, repeat=n)] + [[B1] * 4, [C1] * 4, [T(b" "), B1, T(b"\n")], [T(b"t")], [B1, T(b"t")], [BX], [C("c".encode())], [B1, C(b"c"), P(b"p", b"q"), C1], [el(b, B1)], [el(b, C1, D1)], [el(b, C1), C1], [el(b)],
    [AA((x, b"1"))], [AA((x, b"1")), B1], [AA((y, b"2"))], [AA((x, b"1"), (y, b"2"))], [AA((y, b"2"), (x, b"1")), B1, C1], [AA((x, b"")), C1], [AA((x, b"z")), B1], [R(b"#32")], [R(b"#65"), B1], [R(b"nbsp"), B1], [T(b"\xc3\xa5")]]
VALUES = [b"1", b"-7", b"x", b"t", b"true", b"0", b" t ", b"1 2", b"a  b", b"a b", b" a\nb ", b"", b"\xc3\xa5\xc3\xa4", b"1.0", b"+3", b"abc", b"\xf0\x9f\x98\x80"]
TEXTS = docs([[T(v)] if v else [] for v in VALUES]) + docs([[AA((x, v))] for v in VALUES]) + docs([[T(b"t"), R(b"#116")], [R(b"#49")], [T(b"1"), C(b"c"), T(b"2")], [D1], [T(b"1"), D1], [AA((x, b"1")), T(b"1")], [A(x, R(b"#49"), T(b"2"))], [A(x, T(b"t"), R(b"#116"))]])
MANY = docs(CONTENTS) + [[C(b"c")] + el(a, B1) + [C(b"d")], el(a, B1) + el(a, D1), el(a, D1) + el(a, B1), [], el(b), el(b, T(b"1")), [C(b"c")], [("D", b"a")] + el(a, B1), [("D", b"a")] + el(a, D1), [("D", b"a"), P(b"p", b"q")] + el(a, T(b"t")), [P(b"p", b"q")] + el(a, C1) + [C(b"c")]]
Q = lambda n, *body: [E(n, None, URN)] + [e for q in body for e in (q if isinstance(q, list) else [q])] + [X]
PQ = lambda n, *body: [E(n, b"p", URN)] + [e for q in body for e in (q if isinstance(q, list) else [q])] + [X]
NSD, NSP = ("N", None, URN), ("N", b"p", URN)
SPACES = [v for z in ([], [0], [1], [0, 1], [1, 0], [0, 0]) for v in (
    [E(a, None, URN), NSD] + [e for q in z for e in Q((b, c_)[q], T(b"1"))] + [X], [E(a, b"p", URN), NSP] + [e for q in z for e in el((b, c_)[q], T(b"1"))] + [X],
    [E(a, b"p", URN), NSP] + [e for q in z for e in PQ((b, c_)[q], T(b"1"))] + [X], el(a, *[el((b, c_)[q], T(b"1")) for q in z]))]

LEAVES = [leaf("b"), leaf("b", type="xs:int", minOccurs="0"), leaf("c", maxOccurs="unbounded"), leaf("c", minOccurs="2", maxOccurs="3"), leaf("d")]
SWEEPS = [  # name, starts, blocks, blocks quick, thorough, documents, documents per schema, every n-th of the longest quick, thorough
    ("content", [schema(IN_A)], LEAVES + [SEQ, CHOICE, ALL, I("sequence", minOccurs="0", maxOccurs="unbounded"), I("choice", maxOccurs="2"), I("choice", minOccurs="0", maxOccurs="unbounded"), END, att("x", use="required"), att("y")], 4, 5, MANY, 3, 18, 24),
    ("attributes", [schema(IN_A), schema(I("element", name="a") + I("complexType", mixed="true"))], [SEQ, leaf("b"), leaf("c", minOccurs="0"), END, att("x"), att("x", type="xs:int"), att("x", use="required"), att("x", use="prohibited"), att("x", fixed="1"), att("x", default="7"), att("y", type="xs:int", use="required")], 4, 5, MANY, 5, 4, 10),
    ("nested", [schema(IN_A, SEQ, I("element", name="b") + v + w) for v in (COMPLEX, I("complexType", mixed="true")) for w in (SEQ, CHOICE)], [END, leaf("c"), leaf("c", maxOccurs="2"), leaf("d", minOccurs="0"), leaf("b"), att("x"), att("y", use="required"), CHOICE], 4, 5, MANY, 5, 4, 10),
    ("values", [schema(I("element", name="a") + I("simpleType") + I("restriction", base=t)) for t in ("xs:string", "xs:token")] + [schema(IN_A, I("attribute", name="x", use="required") + I("simpleType") + I("restriction", base=t)) for t in ("xs:string", "xs:token")],
        [I("enumeration", value=v) + (X,) for v in ("1", "t", "a b", "\u00e5\u00e4", "12", "tt")] + [I("minLength", value="2") + (X,), I("maxLength", value="2") + (X,), I("maxLength", value="3") + (X,)], 3, 4, TEXTS, 6, 2, 8),
    ("entities", [schema(I("element", name="a") + I("simpleType") + I("restriction", base="xs:string")), schema(IN_A, I("attribute", name="x") + I("simpleType") + I("restriction", base="xs:token"))],
        [(E(b"enumeration", b"xs", XS), A(b"value", *v), X) for v in ([R(b"#49")], [T(b"t"), R(b"#116")], [R(b"#x61"), T(b" "), R(b"#98")], [R(b"#229"), R(b"#228")])] + [(C(b"c"),), (E(b"minLength", b"xs", XS), A(b"value", R(b"#50")), X)], 3, 4, TEXTS, 6, 1, 2),
    ("derived", [schema(I("simpleType", name="s") + I("restriction", base="xs:token") + I("minLength", value="2") + (X, X, X), I("element", name="a") + I("simpleType") + I("restriction", base="s"))], [I("enumeration", value=v) + (X,) for v in ("a b", "\u00e5\u00e4", "12", "tt")] + [I("minLength", value="2") + (X,), I("maxLength", value="3") + (X,)], 3, 4, TEXTS, 6, 1, 4),
    ("numbers", [schema(I("element", name="a") + I("simpleType") + I("restriction", base="xs:int")), schema(IN_A, I("attribute", name="x") + I("simpleType") + I("restriction", base="xs:int"))], [I("enumeration", value=v) + (X,) for v in ("1", "-7", "0", "33")], 3, 4, TEXTS, 6, 1, 1),
    ("types", [schema(I("element", name="a", type=t) + (X,)) for t in ("xs:string", "xs:token", "xs:int", "xs:boolean")] + [schema(IN_A, att("x", type=t)) for t in ("xs:int", "xs:boolean")], [], 0, 0, TEXTS, 60, 1, 1),
    ("names", [schema(I("element", name="a", type="t") + (X,), leaf("b"), leaf("d"), I("complexType", name="t"), SEQ), schema(I("complexType", name="t"), SEQ, leaf("b"), (X, X), leaf("d"), I("element", name="b", type="t") + (X,), IN_A, SEQ), schema(leaf("d"), I("complexType", name="t", mixed="true") + (X,), I("element", name="b", type="xs:int") + (X,), IN_A, SEQ)],
        [END, leaf("c"), leaf("d"), I("element", ref="b") + (X,), I("element", ref="b", minOccurs="0", maxOccurs="2") + (X,), leaf("c", minOccurs="0"), I("element", name="c", type="t") + (X,), I("element", ref="d", minOccurs="0") + (X,)], 3, 4, MANY, 5, 2, 4),
    ("spaces", [schema(I("element", name="a") + COMPLEX, v, targetNamespace="urn:t", **o) for v in (SEQ, CHOICE) for o in ({}, {"elementFormDefault": "qualified"}, {"elementFormDefault": "unqualified"})], [leaf("b"), leaf("c"), leaf("c", minOccurs="0"), END], 3, 3, SPACES, 8, 1, 1),
]
FORMS = ["fmt=xmq", "fmt=xmq,compact", "fmt=xml"]


def close(ev): return tuple(ev) + (X,) * (sum(e[0] == "E" for e in ev) - sum(e == X for e in ev))


def generated(c):
    sw = ", ".join("[pre |-> <<%s>>, menu |-> <<%s>>, max |-> %d, docs |-> <<%s>>, each |-> %d, every |-> %d]" % (", ".join(map(t_doc, pre)), ", ".join(map(t_doc, menu)), nt if c.thorough else nq, ", ".join(map(t_doc, dd)), each * (3 if c.thorough else 1), et if c.thorough else eq)
                   for name, pre, menu, nq, nt, dd, each, eq, et in SWEEPS)
    r = c.tlc("MC", "CONSTANT Sweeps <- S\nINIT Init\nNEXT Next\nINVARIANT Says\nINVARIANT Loaded\n", extra="---- MODULE MC ----\nEXTENDS XsdGen\nS == <<%s>>\n====\n" % sw, timeout=3600)
    if r.violated: raise vf.InfraError("specification invariant %s violated\n%s" % (r.violated, r.tail))
    return sorted((t[1:] for t in r.printed if t[0] == "SCHEMA"), key=lambda t: (t[0], len(t[1]), str(t))), {t[1] - 1: t[2] for t in r.printed if t[0] == "LOADED"}


def written(c, docs, forms):
    return [unhx(g[-1][0]) for g in c.run([["build\t0\t" + tree.to_build(v), "print\t0\t" + f] for v, f in zip(docs, forms)])]


REFUSED = b"xmq: Document cannot be validated against "


def judge(c, key, name, silent, tail, valid, r, info):
    """The exit status, and what is written where; what is printed of an accepted document is returned."""
    rc, so, se = r
    if rc is None or rc < 0 or rc == 134: c.fail(key, reason="crash", **info)
    elif (rc == 0) != valid: c.fail(key, reason="accepted" if rc == 0 else "refused", expected="valid" if valid else "not valid", **info)
    elif valid and se: c.fail(key, reason="complains", **info)
    elif not valid and silent and (so or se): c.fail(key, reason="not silent", **info)
    elif not valid and not silent and not so.startswith(REFUSED + name.encode() + b"\n"): c.fail(key, reason="expected a message", **info)
    elif valid: return so
    return None


def fails(c, wd):
    """What is no schema, and no document."""
    style = lambda *ev, **k: close(schema(*ev, **k))
    bad = {"none": None, "notxmq": b"x{", "empty": b"", "comment": b"// c", "text": b"'t'", "notxsd": b"a{b}", "badxml": b"<xs:schema", "json": b'{"a":1}', "other": b"xs:schema(xmlns:xs = urn:x)", "type": style(I("element", name="a", type="xs:none")), "ref": style(IN_A, SEQ, I("element", ref="none")),
           "twice": style(leaf("a"), leaf("a")), "noname": style(I("element", type="xs:string")), "nothere": style(I("nothing")), "ambiguous": style(IN_A, SEQ, leaf("b", minOccurs="0"), leaf("b"))}
    good = {"good": style(I("element", name="a", type="xs:string")), "goodb": style(leaf("b")), "both": style(leaf("a"), leaf("b"))}
    for n, t in list(good.items()) + list(bad.items()):
        if isinstance(t, tuple): t = written(c, [t], ["fmt=xmq"])[0]
        if t is not None: open(os.path.join(wd, n), "wb").write(t)
    tails = [[], ["to-xml"], ["to-json"], ["no-output"], ["statistics"], ["delete", "//b"], ["validate", "good"], ["select", "//a"]]
    cases = [(["-", "validate"] + s + [n] + t, b"a=1", None) for n in bad for t in tails for s in ([], ["--silent"])]
    cases += [(["-", "validate"] + s + t, b"a=1", None) for t in ([], ["to-xml"]) for s in ([], ["--silent"], ["--nosuch", "good"])]
    # Chains: each schema sees what the commands before it have left.
    for inp, v in ((b"a=1", True), (b"b=1", False)):
        for s in ([], ["--silent"]):
            for t in tails:
                cases.append((["-", "validate"] + s + ["good"] + t, inp, v))
            cases += [(["-", "validate", "both", "validate"] + s + ["good"], inp, v), (["-", "validate"] + s + ["good", "validate", "both"], inp, v), (["-", "validate"] + s + ["good", "validate", "goodb"], inp, False),
                      (["-", "validate", "both", "validate", "both", "validate"] + s + ["good"], inp, v), (["-", "validate", "good"] + s + ["save-to", "out"], inp, v)]
    more = b"a { b { c = 1 } }"
    cases += [(["-", "validate"] + s + [n], more, False) for s in ([], ["--silent"]) for n in good]
    cases += [(["-", "delete", "//b", "validate", "good"], more, True), (["-", "select", "//b/c", "validate", "good"], more, False), (["-", "add-root", "x", "validate", "good"], b"a=1", False), (["-", "select", "//a", "validate", "good"], b"x{a=1}", True),
              (["--xml", "-", "validate", "good"], b"<a>1</a>", True), (["--xml", "-", "validate", "good"], b"<a><b/></a>", False), (["--json", "-", "validate", "good"], b'{"_":"a"}', True), (["--root=a", "-", "validate", "good"], b"b=1", False),
              (["-", "validate", "good"], b"", False), (["-", "validate", "good", "validate", "--silent", "good"], b"a=1", True)]
    for kind in ("cli", "cli_asan"):
        use = cases if kind == "cli" else cases[::2]
        for (argv, inp, v), r in zip(use, xcli.run(c, [(q[0], q[1]) for q in use], kind=kind)):
            c.replayed += 1
            key, info = "xsd:" + " ".join(argv), dict(argv=argv, input=show(inp), observed=r[0], stdout=show(r[1][:300]), stderr=show(r[2][-300:]))
            if xcli.crashed(r): c.fail(key, reason="crash", **info)
            elif (r[0] == 0) != bool(v): c.fail(key, reason="accepted" if r[0] == 0 else "refused", **info)
            elif v is False and "--silent" in argv and argv[argv.index("--silent") + 1] == argv[-1] and (r[1] or r[2]) and inp: c.fail(key, reason="not silent", **info)
            elif not v and r[1].startswith((b"a =", b"a=", b"<", b"{", b"file")): c.fail(key, reason="printed", **info)
            elif v is None and not r[1] and not r[2] and "--silent" not in argv: c.fail(key, reason="no message", **info)


def run(c):
    c.build("harness", "cli", "cli_asan")
    runs, loaded = generated(c)
    c.notes["schemas"] = len(runs)
    wd = os.path.join(c.dir, "run")
    os.makedirs(wd, exist_ok=True)
    sheets = [tree.from_tla(r[1]) for r in runs]
    texts = written(c, sheets, [FORMS[j % 3] for j in range(len(runs))])
    # Documents in xmq, compact xmq and xml.
    inputs = {(w, f): written(c, s[5], [FORMS[f]] * len(s[5])) for w, s in enumerate(SWEEPS) for f in range(3)}
    cases, meta = [], []
    for j, ((w, _, good, bad), t) in enumerate(zip(runs, texts)):
        name = "s%d.xsd" % j
        open(os.path.join(wd, name), "wb").write(t)
        for i, valid in [(i, True) for i in good] + [(i, False) for i in bad]:
            n = len(cases)
            f = n // 2 % 3
            ev = SWEEPS[w - 1][5][i - 1]
            # Xml has no empty document; texts with outer blanks would be trimmed.
            if f == 2 and (sum(e[0] == "E" for e in ev) == 0 or any(e[0] == "T" and e[1].strip() != e[1] for e in ev) or "R" in {z[0] for e in ev for z in [e] + list(e[3] if e[0] == "A" else ())}): f = 1
            if f == 2 and sum(1 for q in tops(ev) if ev[q][0] == "E") > 1: f = 0
            silent, out = n % 5 == 0, [[], ["to-xmq", "--compact"]][n // 3 % 2]
            argv = ["-", "validate"] + (["--silent", name] if silent and n % 2 else [name, "--silent"] if silent else [name]) + out
            cases.append((argv, inputs[w - 1, f][i - 1])); meta.append((loaded[w - 1][i - 1], valid, silent, name, ["compact"] if out else [], t, f))
    res = xcli.run(c, cases)
    some = list(range(0, len(cases), 60))
    for j, r in zip(some, xcli.run(c, [cases[j] for j in some], kind="cli_asan")):
        if xcli.crashed(r): c.fail("xsd:%s:%s" % (show(cases[j][1]), show(meta[j][5])), input=show(cases[j][1]), argv=cases[j][0], schema=show(meta[j][5]), observed=r[0], stderr=show(r[2][-600:]))
    recs, back = [], []
    for (argv, inp), (ev, valid, silent, name, flags, sch, f), r in zip(cases, meta, res):
        c.replayed += 1
        key, info = "xsd:%s:%s:%s" % (show(sch), show(inp), "silent" if silent else ""), dict(input=show(inp), argv=argv, schema=show(sch), observed=r[0], stdout=show(r[1]), stderr=show(r[2][-300:]))
        so = judge(c, key, name, silent, flags, valid, r, info)
        if so is not None and so: recs.append({"doc": ev, "s": list(so), "flags": flags, "again": list(so)}); back.append((key, ev, info))
    for mm in c.validate("PrintTrace", recs, heap="10g"):
        key, ev, info = back[mm[1] - 1]
        c.fail(key, reason=mm[2], expected=tree.show(tree.from_tla(ev)), **info)
    c.notes["valid"], c.notes["not_valid"] = sum(m[1] for m in meta), sum(not m[1] for m in meta)
    fails(c, wd)
    for (argv, inp), m in list(zip(cases, meta))[9::max(1, len(cases) // 4)]: c.sample({"schema": show(m[5]), "input": show(inp), "valid": m[1]}, 5)
    return c.finish(rule="TLC (XsdGen) generates schemas and says which documents each allows; schemas and documents are written in xmq, compact xmq and xml, the tool validates, and TLC (PrintTrace) compares what it prints of the accepted documents with the document itself")


def tops(ev):
    depth, out = 0, []
    for q, e in enumerate(ev):
        if depth == 0: out.append(q)
        if e[0] == "E": depth += 1
        if e == X: depth -= 1
    return out
