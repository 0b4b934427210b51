"""C31: every answer is that of one text the document had since it was asked."""
from common import *
from lspbatch import *
import random, threading
from concurrent.futures import ThreadPoolExecutor

def big(n, f): return "\n".join(f(i) for i in range(n))
TEXTS = ["let aa = 1; in\n{ bb = aa; cc.dd = [ (aa) ./x.nix ]; }\n",
         "\n\nlet aa = 2; bb = 3; in\n{ inherit aa bb; ee = \"s\"; }\n",
         "/* \U0001d11e é */ { bb ? 1, aa }: rec { cc = aa; bbb = cc; dd = { xx.yy = bb; zz = ./y.nix; }; }\n",
         "{ pkgs, aa }: with pkgs; [ zed pkgs.m_k1 aa\n zed aa ]\n",
         "let\n" + big(40, lambda i: "  aa%d = { bb = %s; cc = [ ./f%d.nix (\"é${toString aa%d}\") ]; };" % (i, "aa%d" % (i // 2) if i else "1", i, i // 3)) + "\nin aa0 // aa7",
         "rec {\n" + big(60, lambda i: "  bb%d = aa: aa.bb%d or bb%d;" % (i, i, (i * 7) % 60)) + "\n}\n",
         "{ aa = 1;\n aa = 2", "", "aa", "with import <nixpkgs> { };\n[ zed lib.id\n(aa) builtins.map ]"]
P = [(0, 4), (1, 2), (2, 5), (0, 12), (1, 10), (3, 9), (0, 0), (1, 30)]
def at(p): return {"position": {"line": p[0], "character": p[1]}}
ASKS = [("documentSymbol", {}), ("foldingRange", {}), ("semanticTokens/full", {}), ("documentLink", {}), ("inlayHint", {"range": {"start": {"line": 0, "character": 0}, "end": {"line": 99, "character": 0}}}),
        ("formatting", {"options": {"tabSize": 2, "insertSpaces": True}})] + \
       [(m, dict(at(p), **x)) for p in P for m, x in (("definition", {}), ("references", {"context": {"includeDeclaration": True}}), ("documentHighlight", {}), ("hover", {}),
        ("completion", {"context": {"triggerKind": 1}}), ("rename", {"newName": "neu"}), ("prepareRename", {}), ("codeAction", {"range": {"start": at(p)["position"], "end": at(p)["position"]}, "context": {"diagnostics": []}}))]
WIDE = {"range": {"start": {"line": 0, "character": 0}, "end": {"line": 5, "character": 0}}, "context": {"diagnostics": []}}
ASKS.append(("codeAction", WIDE))
URI = "file:///v/c31/%s.nix"
def canon(m, d):
    return json.dumps([m.get("result"), m.get("error") and [m["error"].get("code"), m["error"].get("message")]], sort_keys=True).replace("/%s.nix" % d, "/DOC.nix")

class Play:
    def __init__(self, exe, fake, rnd, sched, refs, run):
        self.refs, self.rnd, self.run = refs, rnd, run
        env = {"NIXD_ATTRSET_EVAL": fake, "VERIF_WORKER": run}
        if sched: env["VERIF_SCHED"] = sched
        self.s = start(exe, env=env, args=["--semantic-tokens=true", "--config=" + json.dumps({"formatting": {"command": ["sed", "s/a/A/g"]}})])
        self.s.handle = None
        self.n, self.ver, self.fill = 0, 0, 0
        self.ev, self.by = [], {}
    def send(self, o, d, x, text):
        self.ver += 1
        doc = {"uri": URI % d, "version": self.ver}
        if o == "open": self.s.notify("textDocument/didOpen", {"textDocument": dict(doc, languageId="nix", text=text)})
        elif o == "close": self.s.notify("textDocument/didClose", {"textDocument": {"uri": doc["uri"]}})
        elif o == "text": self.s.notify("textDocument/didChange", {"textDocument": doc, "contentChanges": [{"text": text}]})
        else:   # in two steps, of which none is seen
            end = pos(self.now[d], len(self.now[d].encode()))
            self.s.notify("textDocument/didChange", {"textDocument": doc, "contentChanges": [{"range": {"start": {"line": 0, "character": 0}, "end": end}, "text": "x" + text}, {"range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 1}}, "text": ""}]})
        self.now[d] = text
    def ask(self, d, x):
        m, p = ASKS[x]
        i = self.s.request("textDocument/" + m, dict({"textDocument": {"uri": URI % d}}, **p))
        self.by[i] = (d, x)
        return i
    def take(self, m):
        if m is None: raise EOFError
        if "method" in m:
            if "id" in m: self.s.send({"jsonrpc": "2.0", "id": m["id"], "result": None})
            return
        if m.get("id") not in self.by: return
        d, x = self.by.pop(m["id"])
        a = canon(m, d)
        self.ev.append({"e": "ans", "d": d, "x": m["id"], "cands": [t for t in range(len(TEXTS) + 1) if self.refs[t][x] == a], "raw": a[:300], "kind": ASKS[x][0]})
    def pump(self, secs):
        end = time.time() + secs
        while time.time() < end:
            try: self.take(self.s.recv(max(0.0005, end - time.time())))
            except TimeoutError: return
    def play(self, k, ops):
        docs = {d: "h%d_%s" % (k, d) for d in sorted({o["d"] for o in ops})}
        self.ev, self.now = [], {}
        opened = set()
        for o in ops:
            d = docs[o["d"]]
            if o["o"] == "wait": self.pump([0.0005, 0.002, 0.01, 0.03][o["x"]]); continue
            if o["o"] == "ask":
                i = self.ask(d, o["x"])
                self.ev.append({"e": "ask", "d": d, "x": i})
                continue
            t = 0 if o["o"] == "close" else o["x"]
            self.ev.append({"e": "set", "d": d, "x": t})
            self.send(o["o"], d, t, TEXTS[t - 1] if t else "")
            (opened.discard if o["o"] == "close" else opened.add)(d)
        end = time.time() + 60
        while self.by:
            if time.time() > end: raise TimeoutError
            self.pump(0.02)
        for d in opened: self.s.notify("textDocument/didClose", {"textDocument": {"uri": URI % d}})
        self.ev.append({"e": "end"})
        return {"id": k, "docs": list(docs.values()), "ev": [{a: b for a, b in e.items() if a not in ("raw", "kind")} for e in self.ev]}, self.ev
    def stop(self): self.s.p.kill(); self.s.p.wait()

def run(c):
    exe = c.build("nixd_sched")
    rnd = random.Random(c.seed)
    fake = os.path.join(VERIF, "harness", "fake_worker.py")
    wdir = os.path.join(c.run, "worker")
    os.makedirs(wdir, exist_ok=True)
    json.dump({"import--nixpkgs------": {"zed": {"!": {"Meta": {"Type": 1}, "PackageDesc": {"Name": "zed", "Version": "7"}}}}}, open(wdir + "/answers.json", "w"))
    for rule, docs, texts, ops in [("twice", 1, 2, 4), ("later", 1, 2, 4), ("kept", 1, 2, 4), ("once", 1, 2, 5), ("once", 2, 2, 4)] + c.pick([], [("once", 2, 2, 5), ("once", 1, 3, 6)]):
        r = c.tlc("Snapshot", dict(Docs="{%s}" % ", ".join('"d%d"' % i for i in range(docs)), Texts="1..%d" % texts, MaxOps=ops, Rule='"%s"' % rule), invariants=["OneText"], name="%s_%d%d%d" % (rule, docs, texts, ops), may_fail=True)
        if r.violated != (rule != "once"): raise Inconclusive("TLC's verdict on the rule %s is unexpected" % rule)
    # what the answers are when nothing else happens
    def ref(t):
        p = Play(exe, fake, rnd, None, None, wdir)
        p.now = {}
        time.sleep(1)
        if t: p.send("open", "ref", t, TEXTS[t - 1])
        time.sleep(.5)
        out = []
        try:
            for _ in range(2):
                out.append([canon(p.s.wait_reply(p.ask("ref", x), 60), "ref") for x in range(len(ASKS))])
        finally: p.stop()
        if out[0] != out[1]: c.violation("asked again without any change, the answer is another: %s" % str([(ASKS[x], a, b) for x, (a, b) in enumerate(zip(*out)) if a != b][0]), {"text": TEXTS[t - 1]})
        return out[0]
    with ThreadPoolExecutor(8) as ex: refs = list(ex.map(ref, range(len(TEXTS) + 1)))
    telling = sum(len({refs[t][x] for t in range(len(TEXTS) + 1)}) > 1 for x in range(len(ASKS)))
    c.log("%d of %d requests tell texts apart" % (telling, len(ASKS)))
    gen = lambda docs, lo, hi, num, nm: c.tlc("SnapshotGen", dict(Docs="{%s}" % ", ".join('"d%d"' % i for i in range(docs)), Texts="1..%d" % len(TEXTS), Kinds="0..%d" % (len(ASKS) - 1), MinOps=lo, MaxOps=hi),
              invariants=["Emit"], name=nm, simulate=num, depth=hi * 3 + 3, workers=1).cases
    hs = gen(1, 6, 30, c.pick(700, 8000), "one") + gen(3, 15, 60, c.pick(450, 5000), "three") + gen(8, 60, 120, c.pick(100, 1500), "eight")
    rnd.shuffle(hs)
    jobs = []
    for i in range(0, len(hs), 15): jobs.append((rnd.choice(["", "20,300", "200,1000", "60,3000", "8,8000"]), hs[i:i + 15]))
    lock, todo, errs, traces = threading.Lock(), list(enumerate(jobs)), [], {}
    def work():
        try:
            while True:
                with lock:
                    if not todo: return
                    n, (sc, xs) = todo.pop(0)
                p = Play(exe, fake, random.Random(c.seed * 1000 + n), "%d,%s" % (rnd.randrange(10**6), sc) if sc else None, refs, wdir)
                for m, x in enumerate(xs):
                    k = n * 1000 + m
                    try: tr = p.play(k, x)
                    except (EOFError, TimeoutError, BrokenPipeError) as e:
                        with lock: c.violation("the server %s (delays %s)" % ("does not answer" if isinstance(e, TimeoutError) else "ends", sc), {"history": x, "delays": sc})
                        break
                    with lock:
                        c.validated += 1
                        traces[k] = (tr, sc, x)
                p.stop()
        except Exception as e: errs.append(e); raise
    ts = [threading.Thread(target=work) for _ in range(16)]
    [t.start() for t in ts]; [t.join() for t in ts]
    if errs: raise errs[0]
    c.log("%d histories played, %d events" % (len(traces), sum(len(t[0][0]["ev"]) for t in traces.values())))
    f = os.path.join(c.run, "traces.ndjson")
    with open(f, "w") as o:
        for t in traces.values(): o.write(json.dumps(t[0][0]) + "\n")
    r = c.tlc("SnapshotTrace", invariants=["Stuck"], name="SnapshotTrace", env={"TRACES": f})
    good, rej = {x["id"] for x in r.cases if x["ok"]}, {x["id"]: x for x in r.cases if not x["ok"]}
    for k, ((t, ev), sc, x) in traces.items():
        if k in good: continue
        j = rej.get(k, {"at": 1, "window": []})
        e = ev[j["at"] - 1]
        c.violation("an answer to %s is of none of the texts %s the document had since it was asked, but of %s: %s" % (e.get("kind"), j["window"], e.get("cands"), e.get("raw")), {"history": x, "delays": sc, "at": j["at"]}, sig="%s" % e.get("kind"))
    for k in list(traces)[:2]: c.sample(traces[k][2][:12])
    c.extra["trace_events"] = sum(len(t[0][0]["ev"]) for t in traces.values())

if __name__ == "__main__":
    main(run, "C31")
