"""Shared by all checks: running TLC, feeding the harnesses, reporting."""
import collections, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as _build

VERIF = _build.VERIF
SPEC = os.path.join(VERIF, "spec")
KNOWN = os.path.join(VERIF, "known-findings.json")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

# TLC keeps one byte of each character, and not even that if it is no ASCII: others have names
NAMES = {"\u00e9": "%%e%%", "\u03bb": "%%l%%", "\u20ac": "%%u%%", "\u4e2d": "%%z%%", "\U0001d11e": "%%g%%", "\U0001f600": "%%s%%"}
def enc(s):
    s = s.translate(str.maketrans(NAMES))
    if not s.isascii(): raise Inconclusive("no name for a character of %r" % s)
    return s
def dec(s):
    if "%%" in s:
        for k, v in NAMES.items(): s = s.replace(v, k)
    return s

class Inconclusive(Exception):
    """The machinery failed (not the code under test): error exit."""

class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.run = os.path.join(VERIF, "run", pid)
        if os.path.isdir(self.run):
            shutil.rmtree(self.run)
        os.makedirs(self.run)
        self.states = self.transitions = 0
        self.runs = []
        self.validated = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known_hit = collections.OrderedDict()
        self.known = []
        if os.path.exists(KNOWN):
            self.known = [k for k in json.load(open(KNOWN)) if k["property"] == pid and k.get("status") == "known"]

    def log(self, *a):
        print("[%s %.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def build(self, *targets):
        r = _build.build(list(targets))
        self.log("built", *targets)
        return r[targets[0]] if len(targets) == 1 else [r[t] for t in targets]

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, consts=None, init="Init", next="Next", invariants=(), constraints=(), props=(),
            simulate=None, depth=None, workers=8, name=None, timeout=600, post=None, on_case=None, env=None,
            heap="6g", extra_cfg="", spec=None, quiet=False, action_constraints=(), view=None, max_cases=None, may_fail=False):
        """Runs TLC on spec/<module>.tla.  Lines printed by PrintT("@@" \\o ToJson(r))
        are returned (or given to on_case).  Any TLC error raises, except invariant
        violations, which are returned as .violated."""
        name = name or module
        d = os.path.join(self.run, "tlc_" + name)
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        cfg = []
        if spec:
            cfg.append("SPECIFICATION " + spec)
        else:
            cfg += ["INIT " + init, "NEXT " + next]
        # constants are defined in a module of their own, so that they may be any TLA+ expression
        mc = "MC_" + name
        with open(os.path.join(d, mc + ".tla"), "w") as f:
            f.write("---- MODULE %s ----\nEXTENDS %s\n" % (mc, module))
            for k, v in (consts or {}).items():
                f.write(enc("const_%s == %s\n" % (k, v)))
                cfg.append("CONSTANT %s <- const_%s" % (k, k))
            f.write("====\n")
        for i in invariants: cfg.append("INVARIANT " + i)
        for i in props: cfg.append("PROPERTY " + i)
        for i in constraints: cfg.append("CONSTRAINT " + i)
        for i in action_constraints: cfg.append("ACTION_CONSTRAINT " + i)
        if view: cfg.append("VIEW " + view)
        if post: cfg.append("POSTCONDITION " + post)
        cfg.append("CHECK_DEADLOCK FALSE")
        if extra_cfg: cfg.append(extra_cfg)
        open(os.path.join(d, name + ".cfg"), "w").write("\n".join(cfg) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE",
               "-config", name + ".cfg", "-metadir", os.path.join(d, "meta"), "-workers", str(workers)]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-seed", str(self.seed), "-aril", "0"]
            if depth: cmd += ["-depth", str(depth)]
        cmd.append(mc + ".tla")
        cases, tail = [], []
        t0 = time.time()
        p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, **(env or {})))
        timer = threading.Timer(timeout, p.kill)
        timer.start()
        n = 0
        for line in p.stdout:
            if line.startswith(b'"@@'):
                c = json.loads(json.loads(dec(line.decode()))[2:])
                n += 1
                if on_case: on_case(c)
                else: cases.append(c)
            else:
                tail.append(line.decode(errors="replace"))
        rc = p.wait()
        timer.cancel()
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        out = "".join(tail)
        open(os.path.join(d, "out.txt"), "w").write(out)
        r = TlcResult()
        r.cases, r.ncases, r.out = cases, n, out
        m = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct", out)
        if m:
            r.generated, r.distinct = [int(x.replace(",", "")) for x in m.groups()]
        m = re.search(r"The number of states generated: (\d+)", out)
        if m and not r.generated:
            r.generated = r.distinct = int(m.group(1))
        r.violated = "is violated" in out or "was violated" in out or "were violated" in out
        r.post_false = "Evaluating assumption PostCondition" in out or "POSTCONDITION" in out and "violated" in out
        ok = ("Model checking completed. No error" in out) or (simulate and rc == 0) or ("Finished in" in out and rc == 0)
        r.ok = ok and not r.violated
        if not r.ok and not (r.violated and may_fail):
            raise Inconclusive("TLC failed on %s (rc %s):\n%s" % (name, rc, out[-3000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.runs.append({"spec": module, "config": name, "states": r.distinct, "generated": r.generated, "cases": n,
                          "mode": "simulate" if simulate else "exhaustive", "constants": {k: str(v) for k, v in (consts or {}).items()}})
        if not quiet:
            self.log("TLC %s: %d states, %d generated, %d cases, %.1fs" % (name, r.distinct, r.generated, n, time.time() - t0))
        return r

    # -- reporting ---------------------------------------------------------
    def violation(self, what, case, sig=None):
        """sig: canonical identification of the failing input/history, compared
        with known-findings.json."""
        for k in self.known:
            if sig is not None and sig in k["signatures"]:
                self.known_hit.setdefault(k["id"], k)
                return
        self.violations.append((what, case, sig))
        if len(self.violations) <= int(os.environ.get("VERIF_SHOW", "5")):
            f = os.path.join(self.run, "violation_%d.json" % len(self.violations))
            json.dump({"property": self.pid, "what": what, "case": case, "signature": sig}, open(f, "w"), indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (self.pid, f))
            print("   ", what[:600], flush=True)

    def sample(self, s, n=6):
        if len(self.samples) < n:
            self.samples.append(s)

    def finish(self, **cov):
        for k in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        c = {"states": self.states, "transitions": self.transitions,
             "traces_validated_against_impl": self.validated,
             "samples": self.samples, "tlc_runs": self.runs}
        c.update(self.extra)
        c.update(cov)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": c,
                   "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
                   "violations": len(self.violations)},
                  open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1, default=str)
        self.log("%d violations, %d cases replayed" % (len(self.violations), self.validated))
        sys.exit(1 if self.violations else 0)

class TlcResult:
    generated = distinct = 0

class Crash(Exception):
    pass

def hx(s):
    if isinstance(s, str):
        s = s.encode("utf-8", "surrogateescape")
    return s.hex()

def unhx(s):
    return bytes.fromhex(s).decode("utf-8", "surrogateescape")

ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:handle_abort=0:allocator_may_return_null=1", "UBSAN_OPTIONS": "print_stacktrace=0"}

def batch(exe, reqs, procs=8, per_timeout=60, args=()):
    """Feeds JSON requests to `procs` harness processes; returns a list of replies,
    with {"crash": stderr tail} where the harness died on that request."""
    out = [None] * len(reqs)
    procs = max(1, min(procs, (len(reqs) + 49) // 50))
    def work(k):
        idx = list(range(k, len(reqs), procs))
        pos = 0
        crashes = 0
        while pos < len(idx):
            todo = idx[pos:]
            err = tempfile.TemporaryFile()
            p = subprocess.Popen([exe, *args], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, env=dict(os.environ, **ASAN_ENV))
            def feed():
                try:
                    for i in todo:
                        p.stdin.write((json.dumps(reqs[i]) + "\n").encode())
                    p.stdin.close()
                except (BrokenPipeError, OSError):
                    pass
            t = threading.Thread(target=feed, daemon=True)
            t.start()
            got = 0
            for line in p.stdout:
                out[todo[got]] = json.loads(line)
                got += 1
            rc = p.wait()
            t.join()
            pos += got
            if got < len(todo):
                err.seek(0)
                e = err.read().decode(errors="replace")
                m = re.search(r"(Assertion `.*?' failed|ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|terminate called[^\n]*\n[^\n]*)", e)
                out[todo[got]] = {"crash": (m.group(1) if m else "exit status %d" % rc), "stderr": e[-1500:], "rc": rc}
                pos += 1
                crashes += 1
                if crashes > 200:
                    break
    ths = [threading.Thread(target=work, args=(k,)) for k in range(procs)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    for i in range(len(out)):
        if out[i] is None:
            out[i] = {"skipped": True}
    return out

def main(fn, pid):
    c = Check(pid)
    try:
        fn(c)
    except Inconclusive as e:
        print("ERROR:", e, file=sys.stderr)
        sys.exit(2)
    c.finish()
