"""C19: the server survives any client and worker behaviour and exits cleanly."""
from common import *
from lspbatch import *
import c05, random, shutil, signal, tempfile, threading
from c06 import text_of
from scope import S

FAKE = os.path.join(VERIF, "harness", "fake_worker.py")
ARGS = ["--semantic-tokens=true", "--nixos-options-expr=NIXOS"]
KILLERS = ["die", "half", "headdie", "hup", "exit"]
STUCK = ["stuck", "ignore"]
SOFT = ["ok", "err", "null", "garbage", "nonutf", "header", "late", "dup", "ids", "asks", "both", "neither", "meta", "badloc", "httploc", "empty", "notype", "nullval", "badval", "unicode",
        "many", "thirty", "thirtyone"] + ["pos%d" % i for i in range(17)] + ["wrong%d" % i for i in range(13)]
TEMPLATE = "{ pkgs, lib, config, ... }: with pkgs; { a = M; b = pkgs.M.x; c = lib.M; M.opt = 1; x.M = { y. = 1; z.M. = 2; }; s = [ M pkgs.M. ]; inherit (pkgs) M; d = with lib; M; }"
ODD = ["", " ", "\n\n", "# c", "/* c", "{", "{ ", "{ a", "{ a.", "{ a = ", "{ a = b", "a.", "a.b.", "pkgs.", "lib.${a}.b", "with pkgs; ", "with ; x", "with pkgs.; x", "let", "let a = 1; in", "x:", "{ a, ", "'", '"', '"${', "''", "''${",
       "{ ${ { a = 1; } } = 2; }", "{ ${ { a.b = 1; } }.c.d = 2; }", "{ a = { b. = 1; }; }", "{ a.${x}.b = { c = 1; }; }", "{ .a = 1; }", '{ "${{ a = 1; }}" = 2; }', "{ a.${{ b = 1; }} = { c = 1; }; }", "with lib; with pkgs; a.b.c",
       "{ inherit ; }", "{ inherit (pkgs) a ${b} \"c\"; }", 'pkgs."a b".c', "./a", "./a/${b}.nix", "<nixpkgs>", "~/x", "/", "https://a.b/c?d", "{ a = ./b; }", "1.5e300", "99999999999999999999", "rec { a = a; }", "let { body = 1; }",
       "{ a = 1; a = 2; }", "{ a.b = 1; a = { b = 2; c. = 3; }; }", "a@{ b, c ? b, ... }: b", "{ a, a }: a", "if", "if a then", "assert", "a ? b.c", "a ? ", "a or b", "\U0001d11e\u00e9 { }", "{ \u00e9 = 1; }", "\r\n{\r}\r\n", "\0", "{ a = [ (1) (a.b) ]; }",
       "with { }; 1", "builtins.foo builtins. map", "{ config = { a = 1; b. = 2; }; }", "config.a.b", "{ a = x: { b = 1; }; c = [ { d = 1; } ]; }", "(" * 80 + ")" * 80, "{ a = " * 50, "[" * 200, "x: " * 200 + "x"]
PROBE = "let a = 1; b = a; in rec { x = [ a b ]; y = { z = x; }; f = { p, q ? p }: p + q; }"
PROBES = [("textDocument/documentSymbol", {}), ("textDocument/references", {"position": {"line": 0, "character": 4}, "context": {"includeDeclaration": True}}),
          ("textDocument/documentHighlight", {"position": {"line": 0, "character": 32}}), ("textDocument/rename", {"position": {"line": 0, "character": 15}, "newName": "n"}),
          ("textDocument/foldingRange", {}), ("textDocument/definition", {"position": {"line": 0, "character": 50}})]
METHODS = ["textDocument/" + m for m in ["definition", "completion", "hover", "references", "documentHighlight", "prepareRename", "rename", "codeAction", "documentSymbol", "foldingRange", "semanticTokens/full", "documentLink", "inlayHint",
           "formatting"]] + ["completionItem/resolve", "codeAction/resolve", "no/such"]
PARAMS = ["neg", "past", "huge", "huge63", "float", "nopos", "strpos", "notd", "nouri", "baduri", "httpuri", "emptyuri", "reluri", "null", "array", "number", "string", "rev", "deep", "oddname", "nullname", "oddctx", "odddata", "nodata", "surrogate"]
CONFS = ["expr:" + m for m in SOFT[:22] + KILLERS] + ["opt:" + m for m in SOFT[:22] + KILLERS] + ["many", "fmt:cat", "fmt:false", "fmt:none", "fmt:empty", "fmt:kill", "fmt:late", "fmt:noread", "wrong", "error", "empty", "null"]
ENDS = ["shutdown-exit", "busy-shutdown-exit", "exit", "busy-exit", "eof", "busy-eof", "shutdown-eof", "hup", "busy-hup", "stuck-shutdown-exit", "stuck-exit", "stuck-eof", "exit-exit", "shutdown-shutdown-exit"]
INIT19 = json.loads(json.dumps(INIT))
INIT19["capabilities"].update(workspace={"configuration": True}, window={"workDoneProgress": True})

def conf(x, rnd):
    k, _, v = x.partition(":")
    if k == "expr": return {"nixpkgs": {"expr": "m_" + v}}
    if k == "opt": return {"options": {"nixos": {"expr": "m_" + v}, "home": {"expr": "m_" + rnd.choice(SOFT)}}}
    if k == "many": return {"options": {"o%d" % i: {"expr": "m_ok"} for i in range(5)}, "nixpkgs": {"expr": "1"}, "diagnostic": {"suppress": ["x"]}}
    if k == "fmt": return {"formatting": {"command": {"cat": ["cat"], "false": ["false"], "none": ["/nonexistent/x"], "empty": [], "kill": ["sh", "-c", "kill -9 $$"], "late": ["sh", "-c", "sleep 0.05; cat"], "noread": ["echo", "x"]}[v]}}
    if k == "wrong": return rnd.choice([{"options": 5}, {"formatting": {"command": 5}}, {"nixpkgs": []}, 7, "x", {"options": {"a": 5}}])
    return {}

def params(method, uri, text, kind, n, rnd):
    o = len(text) * n // 40 if text else 0
    p = pos(text, o) if text else {"line": 0, "character": 0}
    q = pos(text, rnd.randrange(o, len(text) + 1)) if text else p
    d = {"textDocument": {"uri": uri}, "position": p, "range": {"start": p, "end": q}, "context": {"includeDeclaration": bool(n % 2), "diagnostics": []}, "newName": "zz", "options": {"tabSize": 2, "insertSpaces": True}}
    if method.endswith("/completion"): d["context"] = {"triggerKind": 1 + n % 2, "triggerCharacter": "."}
    if method == "completionItem/resolve": d = {"label": "m_pos%d" % n, "kind": 5, "data": json.dumps({"Scope": ["a", "m_" + SOFT[n % len(SOFT)]], "Prefix": "x"})}
    if method == "codeAction/resolve": d = {"title": "t", "kind": "quickfix", "data": {"noogleUrl": "https://noogle.dev"}}
    if kind == "neg": d["position"] = {"line": -1, "character": -5}; d["range"] = {"start": d["position"], "end": {"line": -1, "character": 3}}
    elif kind == "past": d["position"] = {"line": 1000, "character": 1000}; d["range"] = {"start": p, "end": d["position"]}
    elif kind == "huge": d["position"] = {"line": 2**31, "character": 2**31}; d["range"] = {"start": d["position"], "end": {"line": 2**32, "character": 2**32 + 1}}
    elif kind == "huge63": d["position"] = {"line": 2**63 - 1, "character": 2**63 - 1}; d["range"] = {"start": d["position"], "end": {"line": 2**63, "character": 2**64}}
    elif kind == "float": d["position"] = {"line": 0.5, "character": 1e300}; d["range"] = {"start": d["position"], "end": d["position"]}
    elif kind == "nopos": [d.pop(k, None) for k in ("position", "range", "label", "title")]
    elif kind == "strpos": d.update(position="0:0", range="x", label=5, title=[])
    elif kind == "notd": d.pop("textDocument", None)
    elif kind == "nouri": d["textDocument"] = {}
    elif kind == "baduri": d["textDocument"] = {"uri": rnd.choice(["%", "a b", "file:", "file://host/x.nix", "::", "file:///%zz", "file:///%", "file://"])}
    elif kind == "httpuri": d["textDocument"] = {"uri": "http://x/y.nix"}
    elif kind == "emptyuri": d["textDocument"] = {"uri": ""}
    elif kind == "reluri": d["textDocument"] = {"uri": rnd.choice(["x.nix", "./x.nix", "file:x.nix", "untitled:Untitled-1"])}
    elif kind == "null": return None
    elif kind == "array": return [d]
    elif kind == "number": return 5
    elif kind == "string": return "x"
    elif kind == "rev": d["range"] = {"start": q, "end": p}
    elif kind == "deep": d["context"] = json.loads("[" * 60 + "]" * 60)
    elif kind == "oddname": d["newName"] = rnd.choice(["", " ", "a b", "1", "'", '"', "${x}", "let", "a.b", "\n", "\U0001d11e", "a" * 5000])
    elif kind == "nullname": d["newName"] = None
    elif kind == "oddctx": d["context"] = rnd.choice([None, 5, {"diagnostics": [{"range": 5}]}, {"diagnostics": None}, {"only": ["x"], "diagnostics": []}, {"includeDeclaration": "x"}])
    elif kind == "odddata": d["data"] = rnd.choice(["garbage", "5", "[]", "{}", '{"Scope":5,"Prefix":"x"}', '{"Scope":[5]}', '{"Scope":[],"Prefix":7}', 5, ["x"], {"noogleUrl": 5}, None, "null", '"x"', '{"Scope":["m_die"],"Prefix":""}'])
    elif kind == "nodata": d.pop("data", None); d["kind"] = rnd.choice([-5, "x", 1e9, None])
    elif kind == "surrogate": d["newName"] = d["label"] = d["title"] = "\ud800x\udc00"
    return d

class Session:
    def __init__(self, exe, kinds, baseline, rnd, worker, sched=None):
        self.kinds, self.baseline, self.rnd, self.worker = kinds, baseline, rnd, worker
        self.dir = tempfile.mkdtemp(prefix="c19_")
        w, _, mode = worker.partition(":")
        exes = {"fake": FAKE, "missing": "/nonexistent/worker", "false": "/bin/false", "cat": "/bin/cat", "echo": "/bin/echo"}
        self.s = Server(exe, ARGS + ["--nixpkgs-expr=" + ("m_" + mode if mode else "NIXPKGS")], env=dict({"NIXD_ATTRSET_EVAL": exes[w], "VERIF_WORKER": self.dir}, **({"VERIF_SCHED": sched} if sched else {})))
        self.ev, self.pending, self.conf, self.open, self.n, self.gone = [], {}, [], {}, 0, False
    def req(self, method, par, e="req"):
        self.n += 1
        i = self.n if self.n % 3 else "s%d" % self.n
        self.ev.append({"e": e, "id": str(i)})
        self.pending[str(i)] = method
        self.s.send({"jsonrpc": "2.0", "id": i, "method": method, "params": par})
        return str(i)
    def handle(self, m):
        if m is None: self.gone = True; return
        if "__bad__" in m: self.ev.append({"e": "rep", "id": "unreadable", "k": m["__bad__"]}); return
        if "method" in m:
            if "id" not in m: return
            if m["method"] == "workspace/configuration":
                x = self.conf.pop(0) if self.conf else None
                if x == "error": self.s.send({"jsonrpc": "2.0", "id": m["id"], "error": {"code": 1, "message": "no"}})
                else: self.s.send({"jsonrpc": "2.0", "id": m["id"], "result": None if x in (None, "null") else [] if x == "empty" else [conf(x, self.rnd)]})
            else: self.s.send({"jsonrpc": "2.0", "id": m["id"], "result": None})
            return
        r, e = "result" in m, "error" in m
        self.ev.append({"e": "rep", "id": str(m.get("id")), "k": "both" if r and e else "result" if r else "error" if e else "neither"})
        self.pending.pop(str(m.get("id")), None)
        self.last = m
    def wait(self, i, timeout=30):
        end = time.time() + timeout
        m = None
        while i in self.pending and not self.gone and time.time() < end:
            try: self.handle(self.s.recv(max(0.01, end - time.time())))
            except TimeoutError: break
        self.ev.append({"e": "wait", "id": i})
        return None if i in self.pending else self.last
    def probe(self):
        ok = True
        for m, p in PROBES:
            r = self.wait(self.req(m, dict(p, textDocument={"uri": "file:///probe.nix"})))
            if r is None: return
            ok = ok and r.get("result") == self.baseline[m]
        self.ev.append({"e": "probe", "ok": ok})
    def text(self, d): return self.kinds[self.open[d]] if d in self.open else ""
    def burst(self, d, n=0):
        for m in METHODS: self.req(m, params(m, "file:///%s.nix" % d, self.text(d), "ok", n or self.rnd.randrange(41), self.rnd))
    def op(self, o):
        d, u = o["d"], "file:///%s.nix" % o["d"]
        if o["op"] in ("open", "change"):
            self.open[d] = o["x"]
            if o["op"] == "open": self.s.notify("textDocument/didOpen", {"textDocument": {"uri": u, "languageId": "nix", "version": o["n"], "text": self.text(d)}})
            else: self.s.notify("textDocument/didChange", {"textDocument": {"uri": u, "version": o["n"]}, "contentChanges": [{"text": self.text(d)}]})
        elif o["op"] == "close":
            self.open.pop(d, None)
            self.s.notify("textDocument/didClose", {"textDocument": {"uri": u}})
        elif o["op"] == "ask":
            i = self.req(o["x"], params(o["x"], u, self.text(d), o["p"], o["n"], self.rnd))
            if o["w"]: self.wait(i)
        elif o["op"] == "all":
            self.burst(d, o["n"])
            if o["w"]: self.waitall(); self.probe()
        elif o["op"] == "conf":
            self.conf.append(o["x"])
            self.s.notify("workspace/didChangeConfiguration", {"settings": None})
        elif o["op"] == "initialize":
            i = self.req("initialize", INIT19)
            if o["w"]: self.wait(i)
    def waitall(self):
        for i in list(self.pending): self.wait(i)
    def end(self, e):
        parts = e.split("-")
        if parts[0] == "stuck":
            self.s.notify("textDocument/didOpen", {"textDocument": {"uri": "file:///st.nix", "languageId": "nix", "version": 1, "text": TEMPLATE.replace("M", "m_" + self.rnd.choice(STUCK))}})
            self.open["st"] = None
            for n in range(6, 41): self.req("textDocument/" + self.rnd.choice(["hover", "completion", "definition", "inlayHint"]), params("", "file:///st.nix", TEMPLATE.replace("M", "m_stuck"), "ok", n, self.rnd))
            if self.rnd.random() < .5: time.sleep(0.05)
        elif parts[0] == "busy":
            for d in list(self.open) or ["z"]:
                for _ in range(3): self.burst(d)
        else:
            self.waitall(); self.probe()
        for x in parts:
            if x == "shutdown":
                i = self.req("shutdown", None, "shutdown")
                self.wait(i)
                self.ev = [v for v in self.ev if v != {"e": "wait", "id": i}] + [{"e": "wait", "id": i}]
            elif x == "exit": self.ev.append({"e": "exit"}); self.s.notify("exit", None)
            elif x in ("eof", "hup"):
                self.ev.append({"e": "eof"})
                try: self.s.p.stdin.close()
                except OSError: pass
                if x == "hup":
                    try: os.close(os.dup(self.s.p.stdout.fileno()))
                    except OSError: pass
        end = time.time() + 15
        while not self.gone and time.time() < end:
            try: self.handle(self.s.recv(0.2))
            except TimeoutError: pass
        try: st = self.s.p.wait(10)
        except subprocess.TimeoutExpired: st = -99
        # the reader of its output has everything by now
        self.ev.append({"e": "status", "s": st})
        self.ev.append({"e": "left", "n": self.left()})
    def left(self):
        """Workers that still exist, given a moment (a fake worker that is told to exit does so)."""
        for _ in range(100):
            n = 0
            for f in os.listdir(self.dir):
                if f.startswith("pid."):
                    try:
                        if open("/proc/%s/stat" % f[4:]).read().rsplit(")", 1)[1].split()[0] != "Z": n += 1
                    except OSError: pass
            if not n: return 0
            time.sleep(0.02)
        return n
    def play(self, k, hist):
        try:
            i = self.req("initialize", INIT19)
            if self.wait(i) is not None:
                self.s.notify("initialized", {})
                self.s.notify("textDocument/didOpen", {"textDocument": {"uri": "file:///probe.nix", "languageId": "nix", "version": 1, "text": PROBE}})
                for o in hist[:-2]: self.op(o)
            self.end(hist[-1]["x"])
        finally:
            if self.s.p.poll() is None: self.s.p.kill(); self.s.p.wait()
            for f in os.listdir(self.dir):
                if f.startswith("pid."):
                    try: os.kill(int(f[4:]), 0); cmd = open("/proc/%s/cmdline" % f[4:]).read()
                    except OSError: continue
                    if "fake_worker" in cmd: os.kill(int(f[4:]), signal.SIGKILL)
            shutil.rmtree(self.dir, ignore_errors=True)
        return {"id": k, "ev": self.ev}

def sweep_reqs(t, full):
    out = [("textDocument/" + m, {}) for m in ["documentSymbol", "foldingRange", "semanticTokens/full", "documentLink"]]
    out.append(("textDocument/inlayHint", {"range": {"start": pos(t, 0), "end": pos(t, len(t))}}))
    for o in range(len(t) + 1):
        p = pos(t, o)
        for m in ["definition", "completion", "hover", "references", "documentHighlight", "prepareRename"]: out.append(("textDocument/" + m, {"position": p, **({"context": {"includeDeclaration": True}} if m == "references" else {})}))
        out.append(("textDocument/rename", {"position": p, "newName": "zz"}))
        for w in (0, 1, 5, len(t)) if full else (0, 3): out.append(("textDocument/codeAction", {"range": {"start": p, "end": pos(t, min(len(t), o + w))}, "context": {"diagnostics": []}}))
    return out

def sweep(c, exe, texts, name, full=True, chunk=12):
    env = {"NIXD_ATTRSET_EVAL": FAKE}
    docs = [Doc(t, sweep_reqs(t, full)) for t in texts]
    ask(exe, docs, chunk=chunk, env=env, args=ARGS + ["--nixpkgs-expr=NIXPKGS"])
    n = 0
    for d in docs:
        n += len(d.reqs)
        c.validated += len(d.reqs)
        for (m, _), r in zip(d.reqs, d.replies):
            if r and "failed to decode" in str(r.get("error")): raise Inconclusive("%s is not asked properly: %s" % (m, r["error"]))
        if not d.dead: continue
        # which request?
        what = None
        for m, p in d.reqs:
            x = Doc(d.text, [(m, p)])
            ask(exe, [x], env=env, args=ARGS + ["--nixpkgs-expr=NIXPKGS"])
            if x.dead: what = (m, p); break
        c.violation("%s when asked %s about %r" % (d.dead, what, d.text), {"text": d.text, "request": what}, sig="text:" + d.text)
        if len(c.violations) > 8: break
    c.log("%s: every request at every position: %d documents, %d requests" % (name, len(docs), n))

def run(c):
    exe = c.build("nixd_sched")
    rnd = random.Random(c.seed)
    # the protocol of calls of a worker
    for p in ("current", "forget", "late", "patient", "careless", "unordered"):
        for jobs in c.pick([2], [2, 3]):
            r = c.tlc("Workers", dict(Jobs="1..%d" % jobs, Protocol='"%s"' % p, Faults='{"die", "stuck", "hup"}', MaxDup=1), spec="Spec", invariants=["TypeOK", "Sound", "NoOrphan"], props=["Answered", "Ends"], name="%s_%d" % (p, jobs), may_fail=True)
            if r.violated != (p != "current"): raise Inconclusive("TLC's verdict on protocol %s is unexpected" % p)
    # sessions
    b = Doc(PROBE, PROBES)
    ask(exe, [b])
    if b.dead or any("result" not in r for r in b.replies): c.violation("a fresh server does not answer requests about %r: %s" % (PROBE, b.replies), {"text": PROBE}); return
    baseline = {m: json.loads(json.dumps(r["result"]).replace(b.uri, "file:///probe.nix")) for (m, _), r in zip(PROBES, b.replies)}
    kinds = {"m_" + m: TEMPLATE.replace("M", "m_" + m) for m in SOFT + KILLERS}
    kinds.update({"t%d" % i: t for i, t in enumerate(ODD)})
    gen = lambda name, num, lo, hi, docs, **kw: c.tlc("LifecycleGen", dict(dict(Docs=S(["d%d" % i for i in range(docs)]), Kinds=S(kinds), Methods=S(METHODS), Params=S(PARAMS), Confs=S(CONFS), Ends=S(ENDS), MinOps=lo, MaxOps=hi,
                  Workers=S(["fake"] * 1 + ["missing", "false", "cat", "echo"] + ["fake:" + m for m in SOFT + KILLERS])), **kw), invariants=["Emit"], name=name, simulate=num, depth=hi + 3, workers=1).cases
    fake = S(["fake"])
    hists = gen("plain", c.pick(200, 4000), 3, 14, 2, Workers=fake) + gen("workers", c.pick(110, 2000), 2, 8, 2) + gen("odd", c.pick(80, 2000), 12, 40, 1, Workers=fake, Kinds=S(["m_ok", "t5", "t20", "m_err"]), Confs=S(["fmt:cat", "wrong"]))
    op = lambda o, d="", x="", p="ok", w=True, n=0: dict(op=o, d=d, x=x, p=p, w=w, n=n)
    # every fault at every kind of query, by itself
    for m in KILLERS + ["late"]:
        for meth in ["definition", "completion", "hover", "inlayHint"]:
            for n in (13, 16, 19, 22, 25, 30, 35) if meth != "inlayHint" else (1,):
                hists.append([op("open", "d0", "m_" + m, n=1), op("ask", "d0", "textDocument/" + meth, n=n), op("all", "d0", n=20), op("worker", x="fake"), op("end", x=rnd.choice(ENDS[:9]))])
    # every request with every kind of parameters
    for m in METHODS:
        hists.append([op("open", "d0", "m_ok", n=1)] + [op("ask", "d0", m, p, w=True, n=rnd.randrange(41)) for p in PARAMS for _ in (0, 1)] + [op("worker", x="fake"), op("end", x="shutdown-exit")])
    hists = list({json.dumps(h): h for h in hists}.values())
    rnd.shuffle(hists)
    traces, errs, lock, todo = [], [], threading.Lock(), list(enumerate(hists))
    def work():
        try:
            while True:
                with lock:
                    if not todo: return
                    k, h = todo.pop()
                r2 = random.Random(c.seed * 7919 + k)
                d = r2.choice(["", "", "20,300", "200,1000", "60,3000"])
                t = Session(exe, kinds, baseline, r2, h[-2]["x"], "%d,%s" % (k, d) if d else None).play(k, h)
                t["delays"] = d
                with lock: traces.append(t)
        except Exception as e: errs.append(e); raise
    ts = [threading.Thread(target=work) for _ in range(16)]
    [t.start() for t in ts]; [t.join() for t in ts]
    if errs: raise errs[0]
    c.validated += len(traces)
    c.extra["sessions"] = len(traces)
    c.extra["session_events"] = sum(len(t["ev"]) for t in traces)
    c.log("%d sessions, %d events" % (len(traces), c.extra["session_events"]))
    f = os.path.join(c.run, "traces.ndjson")
    with open(f, "w") as o:
        for t in traces: o.write(json.dumps(t) + "\n")
    r = c.tlc("LifecycleTrace", invariants=["Stuck"], name="sessions", env={"TRACES": f})
    good = {x["id"] for x in r.cases if x["ok"]}
    rej = {x["id"]: x for x in r.cases if not x["ok"]}
    for t in sorted(traces, key=lambda t: len(hists[t["id"]])):
        if t["id"] in good: continue
        at = rej.get(t["id"], {}).get("at", 1)
        h = hists[t["id"]]
        c.violation("event %d (%s) cannot happen then: %s; pending %s; delays %s; client: %s; last events %s" % (at, json.dumps(t["ev"][at - 1]), "texts %s" % [kinds.get(o["x"]) for o in h if o["op"] in ("open", "change")],
                    rej.get(t["id"], {}).get("pending"), t["delays"], [[o["op"], o["d"], o["x"], o["p"], o["n"]] for o in h], t["ev"][-2:]), {"history": h, "trace": t["ev"], "at": at})
    for h in hists[:3]: c.sample(h)
    # every request everywhere
    sweep(c, exe, [kinds["m_" + m] for m in SOFT if m != "late"], "answers of the worker", full=False)
    texts = [t for t in ODD if len(t) < 120]
    pieces = ["a", "b", "pkgs", "lib", "with pkgs;", "with lib;", "with ", "{", "}", "(", ")", "[", "]", "${", '"', "''", "=", ";", "a =", "a.", ".", "inherit", "inherit (", "rec {", "let", "in", "x:", "{ a,", "...", "@", "?", "or", "./p", "1", "+", ":", ",", "/*", "NL", "m_ok"]
    r = c.tlc("Soup", dict(Alphabet=S([p.replace('"', "DQ") for p in pieces]), MaxLen=10, MinLen=3), invariants=["Emit"], name="soup", simulate=c.pick(130, 4000), depth=12, workers=1)
    texts += [rnd.choice(["", " "]).join({"NL": "\n", "DQ": '"'}.get(p, p) for p in s) for s in rnd.sample(r.cases, min(len(r.cases), c.pick(500, 20000)))]
    r = c.tlc("GrammarMut", dict(Start='"E"', Omit="{}", Budget=9, Edits=2, Junk=S(c05.TOKS)), init="MInit", next="MNext", invariants=["MTypeOK", "MEmit"], name="damaged", simulate=c.pick(150, 5000), depth=700, workers=1)
    texts += [t for t in (text_of(k, rnd) for k in rnd.sample(r.cases, min(len(r.cases), c.pick(500, 20000)))) if len(t) < c.pick(90, 200)]
    sweep(c, exe, list(dict.fromkeys(texts)), "texts", full=c.thorough, chunk=25)

if __name__ == "__main__":
    main(run, "C19")
