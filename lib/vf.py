"""Orchestration shared by the checks: build the code under test, run it on recorded cases, run TLC,
keep the evidence. No oracle lives here: every expectation comes from the TLA+ modules in /verif/spec."""
import os, sys, subprocess, tempfile, shutil, json, time, hashlib, random, re, atexit, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 4)
CFLAGS = ["-g", "-w", '-DVERSION="verif"', "-DPLATFORM_POSIX", "-DLINUX64", "-I/usr/include/libxml2"]


class InfraError(Exception):
    pass


def hx(b):
    if b is None: return "-"
    return b.hex() if b else "="


def unhx(h):
    if h == "-": return None
    if h == "=": return b""
    return bytes.fromhex(h)


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(self.seed * 7919 + sum(map(ord, prop)))
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        atexit.register(shutil.rmtree, self.dir, True)
        self.states = self.transitions = self.replayed = self.validated = 0
        self.samples, self.assumptions, self.notes = [], [], {}
        self.violations, self.known_hits = [], []
        self.known = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            self.known = [k for k in json.load(open(kf))["findings"] if k["property"] == prop and k.get("status") == "open"]
        self.built = {}
        self.tlc_n = 0

    # ---- time ------------------------------------------------------------------------------
    def elapsed(self):
        return time.time() - self.t0

    # ---- build -----------------------------------------------------------------------------
    def source(self):
        """A private copy of the C sources, with parts/yaep.* regenerated if yaep/src was changed."""
        if "src" in self.built: return self.built["src"]
        src = os.path.join(self.dir, "src")
        shutil.copytree(os.path.join(REPO, "src/main/c"), src)
        h = hashlib.sha256()
        for root, dirs, files in sorted(os.walk(os.path.join(src, "yaep"))):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".c", ".h", ".sh")):
                    h.update(f.encode() + b"\0" + open(os.path.join(root, f), "rb").read() + b"\0")
        pristine = open(os.path.join(VERIF, "lib/yaep.sha256")).read().strip() if os.path.exists(os.path.join(VERIF, "lib/yaep.sha256")) else ""
        self.yaep_hash = h.hexdigest()
        if self.yaep_hash != pristine:
            subprocess.run(["sh", "./build_single_yaep_source_file.sh"], cwd=os.path.join(src, "yaep"), check=True)
        self.built["src"] = src
        return src

    def cc(self, args):
        p = subprocess.run(["gcc"] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise InfraError("compile failed: gcc %s\n%s" % (" ".join(args), p.stdout[-3000:]))

    def build(self, *kinds):
        """kinds: harness, harness_asan, cli"""
        src = self.source()
        d = self.dir
        inc = ["-I" + src, "-I" + os.path.join(src, "parts")]
        san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]

        def lib(tag, extra):
            o = os.path.join(d, "xmq-%s.o" % tag)
            self.cc(["-O1"] + CFLAGS + inc + extra + ["-c", os.path.join(src, "xmq.c"), "-o", o])
            return o
        jobs = {}
        with ThreadPoolExecutor(4) as ex:
            if "harness" in kinds or "cli" in kinds: jobs["plain"] = ex.submit(lib, "plain", [])
            if "harness_asan" in kinds or "cli_asan" in kinds: jobs["asan"] = ex.submit(lib, "asan", san)
            if "cli" in kinds:
                jobs["clio"] = ex.submit(lambda: self.cc(["-O1"] + CFLAGS + inc + ["-c", os.path.join(src, "xmq-cli.c"), "-o", os.path.join(d, "cli.o")]))
            if "cli_asan" in kinds:
                jobs["clioa"] = ex.submit(lambda: self.cc(["-O1"] + CFLAGS + inc + san + ["-c", os.path.join(src, "xmq-cli.c"), "-o", os.path.join(d, "cli-asan.o")]))
            for j in jobs.values(): j.result()
        libs = ["-lxml2", "-lxslt", "-lz", "-lm"]
        h = os.path.join(VERIF, "harness/xmqh.c")
        if "harness" in kinds:
            self.built["harness"] = os.path.join(d, "xmqh")
            self.cc(["-O1"] + CFLAGS + inc + [h, os.path.join(d, "xmq-plain.o"), "-o", self.built["harness"]] + libs)
        if "harness_asan" in kinds:
            self.built["harness_asan"] = os.path.join(d, "xmqh-asan")
            self.cc(["-O1"] + CFLAGS + inc + san + [h, os.path.join(d, "xmq-asan.o"), "-o", self.built["harness_asan"]] + libs)
        if "cli" in kinds:
            self.built["cli"] = os.path.join(d, "xmq")
            self.cc([os.path.join(d, "cli.o"), os.path.join(d, "xmq-plain.o"), "-o", self.built["cli"]] + libs)
        if "cli_asan" in kinds:
            self.built["cli_asan"] = os.path.join(d, "xmq-asan")
            self.cc(san + [os.path.join(d, "cli-asan.o"), os.path.join(d, "xmq-asan.o"), "-o", self.built["cli_asan"]] + libs)

    # ---- the code under test ----------------------------------------------------------------
    def run(self, groups, kind="harness", junk=None, secs=10, max_bad=6, alone=False):
        """groups: list of command groups (a group is a list of command lines that share slots).
        Returns for each group the list of answers (fields), or ["CRASH", info] / ["HANG"] for the command that died
        (the rest of that group is ["SKIPPED"])."""
        n = len(groups)
        out = [None] * n
        exe = self.built[kind]
        nw = n if alone else max(1, min(NPROC, (n + 49) // 50))  # alone: each group in a process of its own
        chunks = [list(range(i * n // nw, (i + 1) * n // nw)) for i in range(nw)]
        env = dict(os.environ, XMQH_SECS=str(secs), ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0", LC_ALL="C.UTF-8")
        env["XMQH_TMP"] = self.dir
        if junk: env["XMQH_JUNK"] = junk
        else: env.pop("XMQH_JUNK", None)
        bad = [0]

        def work(w):
            ids = chunks[w]
            if not ids: return
            lines, owner, first = [], [], {}
            for g in ids:
                first[g] = len(lines)
                for l in groups[g]:
                    lines.append(l); owner.append(g)
                out[g] = []
            path = os.path.join(self.dir, "cases-%d-%d" % (os.getpid(), w))
            with open(path, "w") as f: f.write("".join(l + "\n" for l in lines))
            at = 0
            while at < len(lines):
                p = subprocess.Popen([exe, path, str(at)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
                so, se = p.communicate()
                ans = so.decode("latin1").split("\n")
                k = at
                complete = ans[:-1]
                rest = ans[-1]
                died = False
                for a in complete:
                    f = a.split("\t")
                    if f[0] != str(k): raise InfraError("answer out of step: %r at %d" % (a[:200], k))
                    if f[-1] == "HANG":
                        out[owner[k]].append(["HANG"]); died = True; k += 1; break
                    out[owner[k]].append(f[1:]); k += 1
                if not died and p.returncode != 0:
                    info = "exit %d" % p.returncode
                    m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|Assertion [^\n]*)", se.decode("latin1"))
                    if m: info += " " + m.group(1)[:200]
                    if k >= len(lines):
                        out[owner[-1]][-1] = ["CRASH", "at exit: " + info]
                        break
                    out[owner[k]].append(["CRASH", info]); died = True; k += 1
                if not died: break
                bad[0] += 1
                g = owner[k - 1]
                while k < len(lines) and owner[k] == g:
                    out[g].append(["SKIPPED"]); k += 1
                at = k
                if bad[0] > max_bad:
                    for j in range(at, len(lines)): out[owner[j]].append(["SKIPPED"])
                    break
            os.unlink(path)
        with ThreadPoolExecutor(min(nw, NPROC)) as ex: list(ex.map(work, range(nw)))
        return out

    def run1(self, lines, **kw):
        return [a[0] for a in self.run([[l] for l in lines], **kw)]

    # ---- TLC ---------------------------------------------------------------------------------
    def tlc(self, module, cfg, extra=None, env=None, workers=None, timeout=600, args=(), heap="6g", stack="64m"):
        """Run TLC on a module of /verif/spec (or on the text `extra`, a module that extends them).
        Returns the printed tuples. Anything but a completed exploration is an error of the check, except an
        invariant violation, which is returned under the key `violated`."""
        self.tlc_n += 1
        d = os.path.join(self.dir, "tlc%d" % self.tlc_n)
        os.mkdir(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"): os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        name = module
        if extra is not None:
            name = "MC"
            with open(os.path.join(d, "MC.tla"), "w") as f: f.write(extra)
        with open(os.path.join(d, name + ".cfg"), "w") as f: f.write(cfg)
        e = dict(os.environ); e.update(env or {})
        cmd = ["timeout", str(timeout), "java", "-Xmx" + heap, "-Xss" + stack, "-XX:+UseParallelGC", "-cp", JAR, "tlc2.TLC",
               "-workers", str(workers or NPROC), "-deadlock", "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"),
               "-config", name + ".cfg", *args, name + ".tla"]
        outp = os.path.join(d, "out.txt")
        with open(outp, "w") as f:
            p = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, env=e)
        printed, tail, gen, dist, ok, viol = [], [], 0, 0, False, None
        with open(outp, errors="replace") as f:
            for line in f:
                if line.startswith('"<<'):
                    printed.append(parse_tla(line.strip()))
                    continue
                tail.append(line); tail = tail[-60:]
                m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
                if m: gen, dist = int(m.group(1)), int(m.group(2))
                if "Model checking completed. No error has been found" in line: ok = True
                m = re.match(r"Error: Invariant (\w+) is violated", line)
                if m: viol = m.group(1)
                m = re.match(r"Error: Action property (\w+) is violated", line)
                if m: viol = m.group(1)
                if "Finished computing initial states" in line and not gen: pass
        self.states += dist
        self.transitions += gen
        shutil.rmtree(os.path.join(d, "meta"), True)
        if not ok and viol is None:
            raise InfraError("TLC did not complete %s (exit %d):\n%s" % (name, p.returncode, "".join(tail)))
        return Result(printed, gen, dist, viol, "".join(tail))

    def write_trace(self, records):
        path = os.path.join(self.dir, "trace-%d.ndjson" % (self.tlc_n + 1))
        with open(path, "w") as f:
            for r in records: f.write(json.dumps(r, separators=(",", ":")) + "\n")
        return path

    def validate(self, module, records, batch=None, **kw):
        """Validate recorded behaviours against the specification: the module reads them from IOEnv.TRACE and
        prints <<"MISMATCH", k, ...>> for each one (1-based) that is not a behaviour of the specification and
        <<"DONE", k>> for every one that was followed to its end."""
        if not records: return []
        path = self.write_trace(records)
        r = self.tlc(module, kw.pop("cfg", "INIT Init\nNEXT Next\n"), env={"TRACE": path}, **kw)
        if r.violated: raise InfraError("invariant %s of the validation model violated\n%s" % (r.violated, r.tail))
        done = {t[1] for t in r.printed if t[0] == "DONE"}
        mis = [t for t in r.printed if t[0] == "MISMATCH"]
        seen = done | {t[1] for t in mis}
        missing = [k for k in range(1, len(records) + 1) if k not in seen]
        if missing: raise InfraError("%s: %d recorded behaviours were not followed to an end, first %d\n%s" % (module, len(missing), missing[0], r.tail))
        self.validated += len(records)
        os.unlink(path)
        return mis

    # ---- verdict -----------------------------------------------------------------------------
    def fail(self, key, **detail):
        """key identifies the failing input; a listed known finding has exactly this key."""
        for k in self.known:
            if k["key"] == key:
                if key not in self.known_hits:
                    self.known_hits.append(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
                return
        self.violations.append(dict(detail, key=key))

    def sample(self, x, limit=6):
        if len(self.samples) < limit: self.samples.append(x)

    def finish(self, rule="", **more):
        wall = time.time() - self.t0
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.replayed + self.validated,
               "behaviours_of_the_spec_replayed": self.replayed, "recorded_traces_validated": self.validated,
               "samples": self.samples, "rule": rule}
        cov.update(self.notes); cov.update(more)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        old = os.path.join(VERIF, "replays", self.prop + ".json")
        if os.path.exists(old): os.unlink(old)
        if self.violations:
            d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.prop + ".json")
            with open(path, "w") as f: json.dump(self.violations[:300], f, indent=1, default=str)
            v = self.violations[0]
            print("first of %d: %s" % (len(self.violations), json.dumps(v, default=str)[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("%s: held on everything explored: %d states, %d spec behaviours replayed, %d recorded traces validated, %.0f s"
              % (self.prop, self.states, self.replayed, self.validated, wall))
        return 0


class Result:
    def __init__(self, printed, gen, dist, violated, tail):
        self.printed, self.gen, self.dist, self.violated, self.tail = printed, gen, dist, violated, tail


def parse_tla(line):
    s = line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
    s = s.replace("<<", "[").replace(">>", "]").replace("{", "[").replace("}", "]").replace("TRUE", "true").replace("FALSE", "false")
    return json.loads(s)


def tla_bytes(b):
    return "<<" + ",".join(str(x) for x in b) + ">>"


def tla_set(xs):
    return "{" + ", ".join(tla_bytes(x) for x in xs) + "}"


def show(b):
    return bytes(b).decode("utf8", "backslashreplace")


def main(fn, prop):
    """Exit 0/1 on a verdict, 2 when the check itself could not decide."""
    try:
        c = Check(prop)
        rc = fn(c)
    except InfraError as e:
        print("CHECK-ERROR property=%s %s" % (prop, e))
        rc = 2
    sys.stdout.flush()
    os._exit(rc) if False else sys.exit(rc)
