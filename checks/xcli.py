"""The command line tool: commands with the record that the specification has of them, and running it."""
import os, subprocess, threading
from concurrent.futures import ThreadPoolExecutor
import vf, xprint
from xprint import t_bytes, t_doc

AX = {"/": "/", "//": "//", "@": "/@", "..": "/..", ".": "/.", "anc": "/ancestor::", "fol": "/following-sibling::", "pre": "/preceding-sibling::"}
TESTS = {"*": "*", "text": "text()", "comment": "comment()", "pi": "processing-instruction()", "node": "node()"}


def step(axis, test="node", pred="", arg=None, val=None):
    """(xpath text, TLA record, json record) of a step. test: one of TESTS or =name."""
    name = test[1:] if test[0] == "=" else ""
    t = "" if axis in ("..", ".") else (name or TESTS[test])
    p = {"": "", "pos": "[%s]" % arg, "last": "[last()]", "attr": "[@%s]" % arg, "attreq": "[@%s='%s']" % (arg, val),
         "child": "[%s]" % arg, "nochild": "[not(%s)]" % arg, "childeq": "[%s='%s']" % (arg, val), "is": "[.='%s']" % arg}[pred]
    n = arg if pred == "pos" else 0
    s = {"attr": arg, "child": arg, "nochild": arg, "is": arg, "attreq": val, "childeq": val}.get(pred, "")
    m = arg if pred in ("attreq", "childeq") else ""
    js = {"axis": axis, "test": "name" if name else test, "name": list(name.encode()), "pred": pred, "n": n, "s": list((s or "").encode()), "m": list(m.encode())}
    rec = '[axis |-> "%s", test |-> "%s", name |-> %s, pred |-> "%s", n |-> %d, s |-> %s, m |-> %s]' % (
        axis, "name" if name else test, t_bytes(name), pred, n, t_bytes(s or ""), t_bytes(m))
    return AX[axis] + t + p, rec, js


def path(*steps, rel=False):
    """Steps are tuples for step(). No steps: the document."""
    st = [step(*(s if isinstance(s, tuple) else (s,))) for s in steps]
    x = "".join(a for a, _, _ in st)
    if rel: x = x[1:] if x.startswith("/") and not x.startswith("//") else "." + x if x else "."
    return x or "/", "<<%s>>" % ", ".join(r for _, r, _ in st), [j for _, _, j in st]


def cmd(argv, op, paths=(), name="", text=b"", file=()):
    rec = '[op |-> "%s", paths |-> <<%s>>, name |-> %s, text |-> %s, file |-> %s]' % (op, ", ".join(paths), t_bytes(name), t_bytes(text), t_doc(file))
    return list(argv), rec


def at(op, *paths):
    return cmd([op, "|".join(p[0] for p in paths)], op, paths=[p[1] for p in paths])


def run(c, cases, kind="cli", secs=20, env=None):
    """cases: (argv, stdin). Returns (rc, stdout, stderr) for each; rc is negative for a signal, None for a timeout."""
    cwd = os.path.join(c.dir, "run")
    os.makedirs(cwd, exist_ok=True)
    e = dict(os.environ, LC_ALL="C.UTF-8", HOME=cwd, MALLOC_PERTURB_="165", ASAN_OPTIONS="detect_leaks=0:exitcode=99", UBSAN_OPTIONS="exitcode=99")
    for v in ("XMQ_THEME", "COLORFGBG"): e.pop(v, None)
    e["TERM"] = "dumb"
    e.update(env or {})
    exe = c.built[kind]

    def one(x):
        argv, inp = x
        p = subprocess.Popen([exe] + list(argv), cwd=cwd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
        try: so, se = p.communicate(inp, timeout=secs)
        except subprocess.TimeoutExpired:
            p.kill(); p.communicate()
            return None, b"", b""
        return p.returncode, so, se
    with ThreadPoolExecutor(vf.NPROC * 2) as ex: return list(ex.map(one, cases))


def crashed(r):
    return r[0] is None or r[0] < 0 or r[0] in (99, 134, 139) or b"AddressSanitizer" in r[2] or b"runtime error:" in r[2]
