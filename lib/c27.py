"""C27: the latest valid configuration takes effect, as a whole."""
from common import *
from lspbatch import *
import random, shutil, tempfile, threading, glob

FAKE = os.path.join(VERIF, "harness", "fake_worker.py")
NAMES = {"nixos": "nixos", "a": "home manager", "b": "ünï/b", "c": ""}
FORMATS = ["command", "string", "default", "empty", "other"]
WAYS = ["", "m_err", "m_late", "m_die", "m_null"]
PARTS = {"command": {"formatting": {"command": 5}}, "arg": {"formatting": {"command": ["printf", 5]}}, "formatting": {"formatting": [1]},
         "options": {"options": [1]}, "option": {"options": {"a": 5}}, "optexpr": {"options": {"a": {"expr": []}}}, "nixpkgs": {"nixpkgs": "x"},
         "nixexpr": {"nixpkgs": {"expr": 5}}, "suppress": {"diagnostic": {"suppress": "x"}}, "diagnostic": {"diagnostic": 5}}
BAD = ["error", "empty", "null", "number", "nothing"] + sorted(PARTS)

class Play:
    def __init__(self, exe, sched, rnd, progress, cli):
        self.rnd = rnd
        self.dir = tempfile.mkdtemp(prefix="c27_")
        self.script("nixfmt", "default")
        caps = json.loads(json.dumps(INIT))
        if progress is not None: caps["capabilities"]["window"] = {"workDoneProgress": progress}
        caps["capabilities"]["workspace"] = {"configuration": True}
        self.progress = bool(progress)
        self.confs, self.ev, self.reqs, self.asks, self.begun, self.ended, self.inv = [], [], [], {}, set(), set(), []
        self.add("default", {"nixpkgs": "", "nixos": ""})
        args = ["--nixpkgs-expr=nixpkgs_1", "--nixos-options-expr=nixos_1"]
        if cli: args.append("--config=" + json.dumps(self.make(cli)))
        self.first, self.ev = [{"fmt": f, "names": n} for f, n in self.confs], []
        env = {"NIXD_ATTRSET_EVAL": FAKE, "VERIF_WORKER": self.dir, "PATH": self.dir + ":" + os.environ["PATH"]}
        if sched: env["VERIF_SCHED"] = sched
        # messages of the server that come before the reply matter, too
        self.s = Server(exe, args, env=env)
        i = self.s.request("initialize", caps)
        self.until(lambda: i in self.asks, 60, [i])
        self.s.notify("initialized", {})
        self.s.notify("textDocument/didOpen", {"textDocument": {"uri": "file:///v/a.nix", "languageId": "nix", "version": 1, "text": "text"}})
        for _ in range(3): self.s.notify("workspace/didChangeConfiguration", {"settings": None})
    def script(self, name, prints):
        p = os.path.join(self.dir, name)
        with open(p, "w") as f: f.write("#!/bin/sh\nprintf %s" % prints)
        os.chmod(p, 0o755)
        return p
    def add(self, fmt, ways):
        self.confs.append((fmt, sorted(ways)))
        self.ev.append({"e": "conf", "fmt": fmt, "names": sorted(ways)})
    def make(self, o):
        """The configuration of an operation."""
        k = len(self.confs) + 1
        c, ways, fmt = {}, dict(o["opts"] or {}), {"command": "f%d" % k, "string": "f%d" % k, "empty": "error", "default": "default", "other": "default"}[o["fmt"]]
        if o["nix"] not in ("absent", "empty"): ways["nixpkgs"] = o["nix"]
        if o["fmt"] == "command": c["formatting"] = {"command": ["printf", "%s", "f%d" % k]}
        elif o["fmt"] == "string": c["formatting"] = self.script("f%d" % k, "f%d" % k)
        elif o["fmt"] == "empty": c["formatting"] = {"command": []}
        elif o["fmt"] == "other": c["formatting"] = {"no-such-setting": 5}
        expr = lambda w: "%s_%d %s" % (w, k, ways[w])
        if "nixpkgs" in ways: c["nixpkgs"] = {"expr": expr("nixpkgs")}
        elif o["nix"] == "empty": c["nixpkgs"] = {"expr": ""} if self.rnd.random() < .5 else {}
        if o["opts"] or self.rnd.random() < .3: c["options"] = {NAMES[w]: {"expr": expr(w)} for w in sorted(ways) if w != "nixpkgs"}
        if self.rnd.random() < .3: c["diagnostic"] = {"suppress": ["sema-unused-def"]}
        if self.rnd.random() < .3: c["unknown"] = {"settings": [1]}
        self.add(fmt, ways)
        return c
    # what the server sends
    def other(self, m):
        me = m.get("method")
        if me == "workspace/configuration": self.reqs.append(m["id"])
        elif me == "window/workDoneProgress/create":
            self.ev.append({"e": "create", "t": m["params"]["token"]})
            self.begun.add(m["params"]["token"])
            self.s.send({"jsonrpc": "2.0", "id": m["id"], "result": None})
        elif me == "$/progress":
            k = m["params"]["value"]["kind"]
            self.ev.append({"e": k, "t": m["params"]["token"]})
            if k == "end": self.ended.add(m["params"]["token"])
        elif "id" in m and "method" in m: self.s.send({"jsonrpc": "2.0", "id": m["id"], "result": None})
        elif m.get("id") in self.inv:
            got = "error" if "error" in m else m["result"][0]["newText"] if m["result"] else "same"
            self.ev.append({"e": "ans", "id": self.inv.index(m["id"]) + 1, "got": got})
            self.asks[m["id"]] = got
        elif "id" in m: self.asks[m["id"]] = ""
    def until(self, done, secs, _=None):
        end = time.time() + secs
        while not done():
            if time.time() > end: raise TimeoutError
            try: m = self.s.recv(0.05)
            except TimeoutError: continue
            if m is None: raise EOFError
            self.other(m)
    def pump(self, secs):
        end = time.time() + secs
        try: self.until(lambda: time.time() > end, secs + 9)
        except TimeoutError: pass
    def format(self, log=True):
        i = self.s.request("textDocument/formatting", {"textDocument": {"uri": "file:///v/a.nix"}, "options": {"tabSize": 2, "insertSpaces": True}})
        self.inv.append(i)
        self.ev.append({"e": "ask", "id": len(self.inv)})
        return i
    def request(self):
        self.until(lambda: self.reqs, 60)
        self.s.notify("workspace/didChangeConfiguration", {"settings": None})
        return self.reqs.pop(self.rnd.randrange(len(self.reqs)))
    def logs(self):
        r = []
        for f in sorted(glob.glob(self.dir + "/*.log")):
            l = []
            for x in open(f).read().splitlines():
                try: m, p = json.loads(x)
                except ValueError: continue
                if m == "attrset/evalExpr":
                    w, _, k = p.split()[0].rpartition("_")
                    l.append([w, int(k)])
            if l: r.append(l)
        return r
    def dead(self):
        """workers that were told to die"""
        d = set()
        for f in glob.glob(self.dir + "/*.log"):
            for x in open(f).read().splitlines():
                if "m_die" in x: d.add(json.loads(x)[1].split("_")[0])
        return sorted(d)
    def play(self, ops):
        for o in ops:
            if o["wait"]: self.pump(self.rnd.choice([0.001, 0.01, 0.05]) if o["wait"] == 1 else 0.15)
            if o["op"] == "format": self.format()
            else:
                i = self.request()
                if o["op"] == "conf": self.s.send({"jsonrpc": "2.0", "id": i, "result": [self.make(o)]})
                elif o["bad"] in PARTS:     # and all else is valid: yet nothing takes effect
                    n, e, st = len(self.confs), len(self.ev), self.rnd
                    c = self.make({"fmt": "command", "nix": "", "opts": {"a": ""}})
                    self.confs, self.ev = self.confs[:n], self.ev[:e]
                    c["formatting"] = {"command": ["printf", "bad"]}
                    c["nixpkgs"], c["options"] = {"expr": "bad_9"}, {"home manager": {"expr": "bad_9"}}
                    self.s.send({"jsonrpc": "2.0", "id": i, "result": [dict(c, **PARTS[o["bad"]])]})
                else: self.s.send(dict({"jsonrpc": "2.0", "id": i}, **{"error": {"error": {"code": -32603, "message": "no"}}, "empty": {"result": []}, "null": {"result": [None]}, "nothing": {"result": None}, "number": {"result": 5}}[o["bad"]]))
        end = time.time() + 25
        last = len(self.confs)
        while True:
            i = self.format()
            self.until(lambda: i in self.asks, 60)
            got, logs, dead = self.asks[i], self.logs(), self.dead()
            told = {tuple(x) for l in logs for x in l}
            # configurations that took effect, as far as is known: all of their workers get to know
            ks = {k for _, k in told} | {1, last} | {k + 1 for k, (fmt, _) in enumerate(self.confs) if fmt in self.asks.values() and fmt[0] == "f"}
            done = (got == self.confs[-1][0] and (self.begun <= self.ended or not self.progress) and
                    all((w, k) in told or w in dead for k in ks if 1 <= k <= last for w in self.confs[k - 1][1]))
            if done:    # and it remains so
                self.pump(0.06)
                if self.logs() == logs and (self.begun <= self.ended or not self.progress): break
            if time.time() > end: break
            if not done: self.pump(0.02)
        self.ev.append({"e": "final", "got": got, "logs": logs, "dead": dead, "procs": len(glob.glob(self.dir + "/pid.*"))})
        return {"first": self.first, "progress": self.progress, "ev": self.ev}
    def stop(self):
        self.s.p.kill(); self.s.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)

def command_line(c, exe, sched, seed):
    """A configuration of the command line that is none: the server ends, by itself."""
    for n, cfg in enumerate(["{", "5", "null", "[]", "", " "] + [json.dumps(dict({"formatting": {"command": ["cat"]}, "options": {"o": {"expr": "1"}}}, **p)) for p in PARTS.values()]):
        d = tempfile.mkdtemp(prefix="c27_")
        s = Server(exe, ["--config=" + cfg], env=dict({"NIXD_ATTRSET_EVAL": FAKE, "VERIF_WORKER": d}, **({"VERIF_SCHED": "%d,%s" % (seed * 100 + n, sched)} if sched else {})))
        try:
            i = s.request("initialize", INIT)
            ends = None
            try:
                s.wait_reply(i, 30)
                if cfg == "": s.wait_reply(s.request("no/such"), 30)
                else:
                    for _ in range(600):
                        if s.p.poll() is not None: break
                        time.sleep(0.05)
            except (EOFError, BrokenPipeError): pass
            except TimeoutError: ends = "does not answer"
            if cfg != "" and ends is None:
                try: s.p.wait(20)
                except subprocess.TimeoutExpired: ends = "goes on"
                if s.p.returncode is not None and (s.p.returncode < 0 or s.p.returncode == 0): ends = "ends with status %d" % s.p.returncode
            elif cfg == "" and s.p.poll() is not None: ends = "ends"
            c.validated += 1
            if ends: c.violation("with the configuration %r on the command line the server %s" % (cfg, ends), {"config": cfg}, sig="cli " + cfg)
        finally:
            s.p.kill(); s.p.wait()
            pids = [int(f.rsplit(".", 1)[1]) for f in glob.glob(d + "/pid.*")]
            end = time.time() + 10
            def alive(p):
                try: return "fake_worker" in open("/proc/%d/cmdline" % p).read()
                except OSError: return False
            while any(map(alive, pids)) and time.time() < end: time.sleep(0.05)
            if any(map(alive, pids)): c.violation("with the configuration %r on the command line workers remain" % cfg, {"config": cfg}, sig="cli workers")
            shutil.rmtree(d, ignore_errors=True)

def run(c):
    exe = c.build("nixd_sched")
    rnd = random.Random(c.seed)

    inv = ["InEffect", "Evaluated", "Forward", "OneEach", "Whole", "Reported", "NotStuck"]
    for mode, n, d in [("current", 3, 1), ("unordered", 2, 0), ("unlocked", 2, 0), ("relaunch", 2, 0), ("forgetful", 2, 1)] + c.pick([], [("current", 4, 0), ("current", 3, 2)]):
        r = c.tlc("Settings", dict(Workers='{"n", "a"}', Running='{"n"}', MaxConfs=n, MaxDeaths=d, Mode='"%s"' % mode), invariants=inv, name="Settings_%s_%d%d" % (mode, n, d), may_fail=True)
        if r.violated != (mode != "current"): raise Inconclusive("TLC's verdict on %s is unexpected" % mode)
    q = lambda xs: "{%s}" % ", ".join('"%s"' % x for x in xs)
    gen = lambda ways, lo, hi, num, nm: c.tlc("SettingsGen", dict(Names="<<%s>>" % ", ".join('"%s"' % n for n in NAMES), Formats=q(FORMATS), Ways=q(ways), Bad=q(BAD), MinOps=lo, MaxOps=hi), invariants=["Emit"], name=nm,
                                              simulate=num, depth=hi * 7 + 3, workers=1).cases
    alive = [w for w in WAYS if w != "m_die"]
    hs = gen(alive, 1, 4, c.pick(120, 2000), "short") + gen(WAYS, 3, 9, c.pick(120, 2000), "deaths") + gen(alive, 6, 16, c.pick(120, 2000), "long")
    rnd.shuffle(hs)
    todo = [(n, x, rnd.choice([None, "20,300", "200,1000", "60,3000", "400,500"])) for n, x in enumerate(hs)]
    ops = {n: (x, s) for n, x, s in todo}
    command_line(c, exe, None, 1)
    command_line(c, exe, "200,1000", c.seed)
    lock, traces, errs = threading.Lock(), [], []
    def work():
        try:
            while True:
                with lock:
                    if not todo: return
                    n, x, sched = todo.pop()
                r2 = random.Random(c.seed * 1000 + n)
                cli = None
                if r2.random() < .4 and any(o["op"] == "conf" for o in x):
                    k = next(k for k, o in enumerate(x) if o["op"] == "conf")
                    cli, x = x[k], x[:k] + x[k + 1:]
                p = None
                try:
                    p = Play(exe, "%d,%s" % (r2.randrange(10**6), sched) if sched else None, r2, r2.choice([True, True, True, False, None]), cli)
                    t = p.play(x)
                    with lock:
                        c.validated += 1
                        traces.append(dict(t, id=n))
                except (EOFError, TimeoutError, BrokenPipeError):
                    with lock: c.violation("the server died or does not answer during %s (delays %s)" % (x, sched), {"history": x, "delays": sched})
                finally:
                    if p: p.stop()
        except Exception as e: errs.append(e); raise
    ts = [threading.Thread(target=work) for _ in range(12)]
    [t.start() for t in ts]; [t.join() for t in ts]
    if errs: raise errs[0]
    c.log("%d histories played, %d events" % (len(traces), sum(len(t["ev"]) for t in traces)))
    f = os.path.join(c.run, "traces.ndjson")
    with open(f, "w") as o:
        for t in traces: o.write(json.dumps(t) + "\n")
    r = c.tlc("SettingsTrace", invariants=["Stuck"], name="SettingsTrace", env={"TRACES": f})
    good = {x["id"] for x in r.cases if x["ok"]}
    rej = {x["id"]: x for x in r.cases if not x["ok"]}
    for t in sorted(traces, key=lambda t: len(t["ev"])):
        if t["id"] in good: continue
        x = rej.get(t["id"], {})
        e = t["ev"][x.get("at", 1) - 1]
        why = [k for k, v in (x.get("why") or {}).items() if not v]
        c.violation("%s: %s; configurations %s; client: %s" % ({"ans": "formatting by no configuration in effect", "final": "when all is quiet, wrong are " + ", ".join(why)}.get(e["e"], "unexpected progress"),
                    e, x.get("confs"), ops[t["id"]][0]), {"trace": t, "operations": ops[t["id"]][0], "delays": ops[t["id"]][1], "at": x.get("at")})
    for t in traces[:3]: c.sample(ops[t["id"]][0])
    c.extra["trace_events"] = sum(len(t["ev"]) for t in traces)

if __name__ == "__main__":
    main(run, "C27")
