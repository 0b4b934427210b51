"""C18: published diagnostics always converge to the latest text and settings."""
from common import *
from lspbatch import *
import random, threading
from urllib.parse import quote, unquote

TEXTS = ["1", "", "/* a", "01.5", "(1", "99999999999999999999", "(1)", "{ a. = 1; }", "a.", "1 } 2", "{ a, b c }: a", "a@b@c: a", "1 < 2 < 3", "a or b",
         "let or = 1; in or", "{ inherit; }", "http://a.b", "let { body = 1; }", "let { a = 1; }", "{ a = { b = 1; }; a = rec { c = 1; }; }",
         "{ a = 1;\n a = 2; }", "{ inherit ${x}; }", "{ a b }: a", "{ ..., ... }: 1", "{ ..., a }: a", "{ a, a }: a", "a@{ a }: a", "undefinedvar",
         "let a = 1; in 1", "{ a }: 1", "{ a }@b: b", "a@{ b }: b", "rec { a = 1; }", "with { }; 1", "builtins.foo", "builtins.map", "foldl'",
         "let map = 1; in map", "let true = 1; in true", "{ a ? 1, a ? 2, b }@b: {x=1; x.y=2;}", "rec { a = let { }; }",
         "# 𝄞é\n[ /*𝄞*/ (é) (λ.) undefinedvar ]\nrec { a = with { }; (1); }", "[\n" + "  (undefinedvar) (let x = 1; in rec { a = 1; })\n" * 60 + "]",
         "{ a, b, a }: let x = (a); in with { }; rec { y = undefined; y = x; }"]
SEV = {0: 1, 1: 1, 2: 2, 3: 3, 4: 4}
INIT18 = json.loads(json.dumps(INIT)); INIT18["capabilities"]["workspace"] = {"configuration": True}

def canon(d):
    """What is compared of a diagnostic; the message may carry a suffix about fixes."""
    r = lambda x: [x["start"]["line"], x["start"]["character"], x["end"]["line"], x["end"]["character"]]
    return [d["code"], d.get("severity"), r(d["range"]), d["message"].split(" (fix available)")[0].split(" fixes available)")[0].rstrip("0123456789(").rstrip(),
            sorted(d.get("tags") or []), sorted(r(i["location"]["range"]) for i in d.get("relatedInformation") or [])]
def full(text, rep):
    """[(kind, [diagnostics])] of a text, by the analysis itself."""
    b = text.encode()
    def p(line, col):
        i = 0
        for _ in range(line): i = b.index(b"\n", i) + 1
        return [line, utf16(b[i:i + col].decode())]
    rg = lambda r: p(r[2], r[3]) + p(r[4], r[5])
    out = []
    for d in rep.get("d", []) + rep.get("vd", []):
        tags = sorted(x + 1 for x in d["tagv"])
        out.append((d["n"], [[d["n"], SEV[d["sev"]], rg(d["r"]), unhx(d["msg"]).rstrip("0123456789(").rstrip(), tags, sorted(rg(n[1]) for n in d["notes"])]] +
                    [[n[0], 4, rg(n[1]), unhx(n[2]).rstrip("0123456789(").rstrip(), [], [rg(d["r"])]] for n in d["notes"]]))
    return out
key = lambda ds: sorted(json.dumps(x) for x in ds)
def shown(fl, payload):
    """The kinds of a text's diagnostics that are published, and of those that are not; None if these are others'."""
    have, ks, no, got = set(payload), set(), set(), []
    for k, ds in fl:
        if json.dumps(ds[0]) in have: ks.add(k); got += ds
        else: no.add(k)
    return [sorted(ks), sorted(no)] if key(got) == payload else None

class Player:
    def __init__(self, exe, fulls, sups, rnd, sched, cli=None):
        self.fulls, self.sups, self.rnd, self.cli = fulls, sups, rnd, cli
        env = {"VERIF_SCHED": sched} if sched else {}
        self.s = start(exe, env=env, init=INIT if cli is not None else INIT18, args=["--config=" + json.dumps(dict({"diagnostic": {"suppress": sups[cli]}}, **self.other_settings()))] if cli is not None else [])
        self.s.handle = self.other
        self.reqs = []
        self.sup = list(sups[cli]) if cli is not None else []
        self.v = 1000
        self.begin([])
        if cli is None:
            for _ in range(3): self.s.notify("workspace/didChangeConfiguration", {"settings": None})
    def other_settings(self):
        """Of a configuration, what has nothing to do with diagnostics."""
        r, o = self.rnd, {}
        if r.random() < .3: o["formatting"] = {"command": ["cat"]}
        if r.random() < .3: o["nixpkgs"] = {"expr": r.choice(["", "import <nixpkgs> { }", "{ }"])}
        if r.random() < .2: o["options"] = r.choice([{}, {"o": {"expr": "{ }"}}, {"o": {"expr": ""}}, {"o": {"expr": "1"}, "p": {}}])
        return o
    def begin(self, docs):
        self.ev, self.docs, self.latest, self.out = [], docs, {}, {}
        self.initial = list(self.sup)
        self.due = set()
    def other(self, m):
        if m.get("method") == "textDocument/publishDiagnostics":
            u = unquote(m["params"]["uri"])[7:]
            if u not in self.docs: return
            payload = key(map(canon, m["params"]["diagnostics"]))
            cands = []
            for v, t in self.latest.get(u, []):
                sh = ([[], []] if not payload else None) if t is None else shown(self.fulls[t], payload)
                if sh is not None: cands.append([v] + sh)
            ver = m["params"].get("version")
            self.ev.append({"e": "pub", "d": u, "ver": -1 if ver is None else ver, "cands": cands, "raw": len(payload)})
            self.out[u] = payload
            self.due.discard(u)
        elif m.get("method") == "workspace/configuration": self.reqs.append(m["id"])
        elif "id" in m and "method" in m: self.s.send({"jsonrpc": "2.0", "id": m["id"], "result": None})
    def pump(self, secs):
        end = time.time() + secs
        while True:
            try: m = self.s.recv(max(0.0005, end - time.time()))
            except TimeoutError: return
            if m is None: raise EOFError
            self.other(m)
            if time.time() > end: return
    def settle(self, timeout):
        end = time.time() + timeout
        while time.time() < end and not self.final(): self.pump(0.003)
    def final(self):
        if self.due: return False
        for u, ts in self.latest.items():
            v, t = ts[-1]
            want = key(x for k, ds in (self.fulls[t] if t is not None else []) if k not in self.sup for x in ds)
            if self.out.get(u) != want: return False
        return True
    def uri(self, u): return "file://" + quote(u)
    def text(self, op, u, t):
        self.v += 1
        self.latest.setdefault(u, []).append((self.v, t))
        self.ev.append({"e": "set", "d": u, "v": self.v, "kinds": sorted({k for k, _ in self.fulls[t]})})
        self.due.add(u)
        doc = {"uri": self.uri(u), "version": self.v}
        if op == "open": self.s.notify("textDocument/didOpen", {"textDocument": dict(doc, languageId="nix", text=TEXTS[t])})
        else: self.s.notify("textDocument/didChange", {"textDocument": doc, "contentChanges": [{"text": TEXTS[t]}]})
    def close(self, u):
        self.v += 1
        self.latest.setdefault(u, []).append((self.v, None))
        self.ev.append({"e": "close", "d": u, "v": self.v})
        self.due.discard(u)
        self.s.notify("textDocument/didClose", {"textDocument": {"uri": self.uri(u)}})
    def request(self):
        """A configuration request of the server to be replied."""
        end = time.time() + 60
        while not self.reqs:
            if time.time() > end: raise TimeoutError
            self.pump(0.01)
        self.s.notify("workspace/didChangeConfiguration", {"settings": None})   # keeps some in stock
        return self.reqs.pop(self.rnd.randrange(len(self.reqs)))
    def conf(self, x):
        s = self.sups[x]
        self.sup = [k for k in s if k in KIND_NAMES]
        i = self.request()
        self.ev.append({"e": "conf", "s": self.sup})
        for u, ts in self.latest.items():
            if ts[-1][1] is not None: self.due.add(u)
        self.s.send({"jsonrpc": "2.0", "id": i, "result": [dict(self.other_settings(), **({"diagnostic": {"suppress": s}} if s or self.rnd.random() < .5 else {}))]})
    def bad(self, x):
        i = self.request()
        self.s.send(dict({"jsonrpc": "2.0", "id": i}, **{"error": {"error": {"code": -32603, "message": "no"}}, "empty": {"result": []}, "null": {"result": None},
                    "type": {"result": [{"diagnostic": {"suppress": "parse-redundant-paren"}}]}, "number": {"result": 5}}[x]))
    def play(self, k, ops):
        names = {d: "/v/h%d/%s.nix" % (k, d) for d in sorted({o["d"] for o in ops if o["d"]})}
        self.begin(list(names.values()))
        try:
            for o in ops:
                if o["w"]:
                    self.pump(self.rnd.choice([0.0005, 0.002, 0.01]))
                if o["op"] in ("open", "change"): self.text(o["op"], names[o["d"]], o["x"])
                elif o["op"] == "close": self.close(names[o["d"]])
                elif self.cli is None and o["op"] == "conf": self.conf(o["x"])
                elif self.cli is None and o["op"] == "bad": self.bad(o["x"])
            end = time.time() + (40 if self.cli is None else 15)
            while True:     # until it is final and remains so
                self.settle(end - time.time())
                self.s.wait_reply(self.s.request("no/such"), 30, self.other)    # what precedes has been handled
                self.pump(0.04)
                if self.final() or time.time() > end: break
            for u, ts in self.latest.items():
                if ts[-1][1] is not None: self.s.notify("textDocument/didClose", {"textDocument": {"uri": self.uri(u)}})
        except (EOFError, TimeoutError) as e:
            return None
        self.ev.append({"e": "end"})
        return {"id": k, "docs": list(names.values()), "sup": self.initial, "ev": self.ev}
    def stop(self): self.s.p.kill(); self.s.p.wait()

KIND_NAMES = set()
def run(c):
    exe, h = c.build("nixd_sched", "nixf_h")
    sys.dont_write_bytecode = True
    rnd = random.Random(c.seed)
    for p, docs, kinds, ops, rep in [("outside", 1, 1, 4, 2), ("unordered", 1, 1, 4, 2), ("current", 2, 1, 4, 2), ("current", 1, 2, 4, 2)] + c.pick([], [("current", 2, 1, 5, 3), ("current", 1, 1, 7, 4)]):
        r = c.tlc("Publish", dict(Docs="{%s}" % ", ".join('"d%d"' % i for i in range(docs)), Kinds="{%s}" % ", ".join('"k%d"' % i for i in range(kinds)),
                  MaxOps=ops, MaxReplies=rep, Protocol='"%s"' % p), invariants=["OnlyAllowed", "Converged", "NotStuck", "Known"], name="%s_%d%d%d" % (p, docs, kinds, ops), may_fail=True)
        if r.violated != (p != "current"): raise Inconclusive("TLC's verdict on protocol %s is unexpected" % p)
    reps = batch(h, [{"s": hx(t), "m": "dv"} for t in TEXTS])
    fulls = [full(t, r) for t, r in zip(TEXTS, reps)]
    kinds = sorted({k for f in fulls for k, _ in f})
    KIND_NAMES.update(kinds)
    c.extra["kinds"] = kinds
    noise = ["no-such-kind", "sema", "Parse-Unexpected", "", "parse-redundant-paren "]
    mixed = lambda x: rnd.sample(x, len(x))
    sups = [[], list(kinds)] + [[k] for k in kinds] + [[x for x in kinds if x != k] for k in rnd.sample(kinds, 8)] + \
           [mixed(rnd.sample(kinds, rnd.randrange(1, 6)) + rnd.sample(noise, 2)) for _ in range(30)]
    # every kind by itself, over all texts
    hist = [dict(op="open", d="t%d" % t, x=t, w=False) for t in range(len(TEXTS))]
    for s in range(len(sups)): hist.append(dict(op="conf", d="", x=s, w=True))
    jobs = [("", None, [hist])]
    nt, ns = len(TEXTS), len(sups)
    gen = lambda docs, lo, hi, num, nm, **kw: [k for k in c.tlc("PublishGen", dict(dict(Docs="{%s}" % ", ".join('"d%d"' % i for i in range(docs)), Texts="0..%d" % (nt - 1),
              Sups="0..%d" % (ns - 1), Bad='{"error", "empty", "null", "type", "number"}', MinOps=lo, MaxOps=hi), **kw), invariants=["Emit"], name=nm, simulate=num, depth=hi + 3, workers=1).cases]
    hs = gen(3, 6, 16, c.pick(300, 4000), "mixed") + gen(1, 4, 10, c.pick(200, 3000), "one") + gen(8, 20, 40, c.pick(100, 2000), "many")
    hs = list({json.dumps(x): x for x in hs}.values())
    rnd.shuffle(hs)
    hs = hs[:c.pick(900, 20000)]
    # bursts: nothing is waited for, one document among many others
    burst = []
    for _ in range(c.pick(240, 4000)):
        n = rnd.randrange(2, 8)
        o = [dict(op="open", d="d%d" % i, x=rnd.randrange(nt), w=False) for i in range(n)] + [dict(op="conf", d="", x=0, w=False)]
        for _ in range(rnd.randrange(4, 14)):
            o.append(rnd.choice([dict(op="change", d="d%d" % rnd.randrange(n), x=rnd.randrange(nt), w=False)] * 3 + [dict(op="conf", d="", x=rnd.randrange(ns), w=False)] * 2))
        burst.append(o)
    al = [(rnd.choice(["", "20,300", "200,1000", "60,3000", "8,8000"]), None, x) for x in hs] + [(rnd.choice(["200,1000", "60,3000", "400,500", "8,8000"]), None, x) for x in burst]
    by = {}
    for sc, cli, x in al: by.setdefault(sc, []).append(x)
    for sc, xs in by.items():
        for i in range(0, len(xs), 25): jobs.append((sc, None, xs[i:i + 25]))
    for _ in range(6): jobs.append(("", rnd.randrange(ns), rnd.sample(hs, 4)))
    lock, todo, errs, traces = threading.Lock(), list(enumerate(jobs)), [], []
    ops = {}
    def work():
        try:
            while True:
                with lock:
                    if not todo: return
                    n, (sc, cli, xs) = todo.pop(0)
                r2 = random.Random(c.seed * 1000 + n)
                p = Player(exe, fulls, sups, r2, "%d,%s" % (r2.randrange(10**6), sc) if sc else None, cli)
                if cli is not None: p.sup = [k for k in sups[cli] if k in KIND_NAMES]
                for m, x in enumerate(xs):
                    k = n * 1000 + m
                    ops[k] = (sc, x)
                    t = p.play(k, x)
                    with lock:
                        c.validated += 1
                        if t is None:
                            c.violation("the server died or does not answer during %s (delays %s)" % (x, sc), {"history": x, "delays": sc})
                            break
                        traces.append(t)
                p.stop()
        except Exception as e: errs.append(e); raise
    ts = [threading.Thread(target=work) for _ in range(28)]
    [t.start() for t in ts]; [t.join() for t in ts]
    if errs: raise errs[0]
    c.log("%d histories played, %d events" % (len(traces), sum(len(t["ev"]) for t in traces)))
    f = os.path.join(c.run, "traces.ndjson")
    with open(f, "w") as o:
        for t in traces: o.write(json.dumps(t) + "\n")
    r = c.tlc("PublishTrace", invariants=["Stuck"], name="PublishTrace", env={"TRACES": f})
    good = {x["id"] for x in r.cases if x["ok"]}
    rej = {x["id"]: x for x in r.cases if not x["ok"]}
    for t in traces:
        if t["id"] in good: continue
        x = rej.get(t["id"], {})
        at = x.get("at", 1)
        e = t["ev"][at - 1]
        last = {d: ts[-1] for d, ts in x.get("texts", {}).items()}
        what = ("when the server is silent, the last diagnostics are not the final ones: texts %s, settings %s, published %s, not published %s" % (last, x["settings"][-1], x["out"], x["due"])
                if e["e"] == "end" else "diagnostics of %s (version %s) that cannot be published then: they may be of %s, sent %s, published last %s" % (e.get("d"), e.get("ver"), e.get("cands"), x["texts"].get(e.get("d")), x["out"].get(e.get("d")))) if x else "rejected"
        c.violation("%s; delays %s, client: %s" % (what, ops[t["id"]][0], ops[t["id"]][1]), {"trace": t, "operations": ops[t["id"]][1], "delays": ops[t["id"]][0], "at": at})
    for t in traces[3:6]: c.sample(ops[t["id"]][1])
    c.extra["trace_events"] = sum(len(t["ev"]) for t in traces)

if __name__ == "__main__":
    main(run, "C18")
