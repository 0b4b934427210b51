"""C01: the server's copy of an open document is always the client's text."""
from common import *
from lspbatch import *
from c02 import requests
import random, threading
from urllib.parse import quote, unquote

CONF = {"formatting": {"command": ["od", "-An", "-v", "-tx1"]}}    # reveals the text of the server

def held(s, uri):
    """The text the server holds of a document, None if it has none."""
    m = s.wait_reply(s.request("textDocument/formatting", {"textDocument": {"uri": uri}, "options": {"tabSize": 2, "insertSpaces": True}}), 60, s.handle)
    if "error" in m: return None
    r = m["result"]
    return "" if not r else bytes.fromhex("".join(r[0]["newText"].split())).decode("utf-8", "replace")

def wire(e):
    o = {"text": e["t"]}
    if e["r"]: o["range"] = {"start": {"line": e["r"][0][0], "character": e["r"][0][1]}, "end": {"line": e["r"][1][0], "character": e["r"][1][1]}}
    if e["len"] >= 0: o["rangeLength"] = e["len"]
    return o

def excerpt(a, b):
    k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return [("..." if k > 80 else "") + x[max(0, k - 80):k + 200] for x in (a, b)]

class Player:
    def __init__(self, c, exe): self.c, self.exe, self.s = c, exe, None
    def up(self):
        if self.s is None:
            self.s = start(self.exe, args=["--config=" + json.dumps(CONF), "--semantic-tokens"])
            self.diags = {}
            self.s.handle = self.other
    def down(self):
        if self.s: self.s.p.kill(); self.s.p.wait()
        self.s = None
    def other(self, m):
        if m.get("method") == "textDocument/publishDiagnostics": self.diags[unquote(m["params"]["uri"])] = m["params"]
        elif "id" in m and "method" in m: self.s.send({"jsonrpc": "2.0", "id": m["id"], "result": [None] if m["method"] == "workspace/configuration" else None})

    def answers(self, uri, text):
        """Everything the server says about a document."""
        rs = []
        for meth, par in requests(text):
            m = self.s.wait_reply(self.s.request(meth, dict({"textDocument": {"uri": uri}}, **par)), 60, self.other)
            rs.append(json.dumps(m.get("result", "error"), sort_keys=True).replace(quote(uri, safe=":/%"), "U").replace(uri, "U"))
        d = self.diags.get(unquote(uri))
        rs.append(json.dumps(d and d["diagnostics"], sort_keys=True).replace(uri, "U"))
        return rs

    def play(self, k, hist, names, twin, observe):
        """Replays a history; every document's text must be what the specification says after every step."""
        self.up()
        s = self.s
        uris = {d: "file:///v/h%d/%s" % (k, quote(n)) for d, n in names.items()}
        sent = []
        try:
            for i, st in enumerate(hist):
                u = uris[st["d"]]
                if st["op"] == "open":
                    n = ("textDocument/didOpen", {"textDocument": {"uri": u, "languageId": "nix", "version": st["v"], "text": st["edits"][0]["t"]}})
                elif st["op"] == "close":
                    n = ("textDocument/didClose", {"textDocument": {"uri": u}})
                else:
                    n = ("textDocument/didChange", {"textDocument": {"uri": u, "version": st["v"]}, "contentChanges": [wire(e) for e in st["edits"]]})
                sent.append(n)
                s.notify(*n)
                for d, w in st["after"].items():
                    if d != st["d"] and not (observe == "all" or i == len(hist) - 1): continue
                    got, want = held(s, uris[d]), w["t"] if w["open"] else None
                    if got != want:
                        return "after %s the server has %r of %s instead of %r" % (" ".join("%s %s" % (x[0], json.dumps(x[1], ensure_ascii=False)) for x in sent), got, uris[d], want), sent
                # what it publishes belongs to that very text
                p = self.diags.get(unquote(u))
                w = st["after"][st["d"]]
                if w["open"] and (p is None or p.get("version") != st["v"]):
                    return "after %s nothing was published for version %s: %s" % (sent, st["v"], p), sent
                if not w["open"] and p and p["diagnostics"]:
                    return "after %s diagnostics remain: %s" % (sent, p), sent
            if twin:
                for d, w in hist[-1]["after"].items():
                    if not w["open"]:
                        m = s.wait_reply(s.request("textDocument/documentSymbol", {"textDocument": {"uri": uris[d]}}), 60, self.other)
                        if m.get("result"): return "after %s symbols are answered for a document that is not open: %s" % (sent, m), sent
                        continue
                    fresh = uris[d] + ".fresh.nix"
                    s.notify("textDocument/didOpen", {"textDocument": {"uri": fresh, "languageId": "nix", "version": 1, "text": w["t"]}})
                    x, y = self.answers(uris[d], w["t"]), self.answers(fresh, w["t"])
                    s.notify("textDocument/didClose", {"textDocument": {"uri": fresh}})
                    if x != y:
                        k = [i for i in range(len(x)) if x[i] != y[i]][0]
                        return "the server answers %s, but %s if the same text has just been opened, after %s" % (*excerpt(x[k], y[k]), sent), sent
            for u in uris.values(): s.notify("textDocument/didClose", {"textDocument": {"uri": u}})
        except EOFError:
            self.s = None
            return "the server died after %s" % sent, sent
        except TimeoutError:
            self.down()
            return "the server does not answer after %s" % sent, sent

def histories(c, exe, hists, procs=8):
    """hists: [(history, names of documents, compare with fresh documents?, what to observe)]"""
    lock = threading.Lock()
    todo = list(enumerate(hists))
    errs = []
    def work():
        pl = Player(c, exe)
        try:
            while True:
                with lock:
                    if not todo: break
                    k, h = todo.pop()
                r = pl.play(k, *h)
                with lock:
                    c.validated += 1
                    if r: c.violation(r[0], {"history": r[1]})
                    elif len(h[0]) > 5: c.sample([{x: st[x] for x in ("op", "d", "edits")} for st in h[0]], 4)
            pl.down()
        except Exception as e:
            errs.append(e); pl.down(); raise
    ts = [threading.Thread(target=work) for _ in range(procs)]
    [t.start() for t in ts]; [t.join() for t in ts]
    if errs: raise errs[0]

def seqs(xs): return "{" + ", ".join("<<%s>>" % ", ".join('"%s"' % ch.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t") for ch in x) for x in xs) + "}"
def grid(l, ch): return "{" + ", ".join("<<%d, %d>>" % (a, b) for a in range(l) for b in range(ch)) + "}"

def run(c):
    h, exe = c.build("lsp_h", "nixd")
    rnd = random.Random(c.seed)
    # every single change of every small text
    for al, n, ins in ((["a", "é", "𝄞", "\n"], c.pick(2, 3), "𝄞\n"), (["a", "𝄞", "\n"], 3, ""), (["b", "\n"], c.pick(3, 4), "é")):
        r = c.tlc("DocEdit", dict(Alphabet="{%s}" % ", ".join('"%s"' % x.replace("\n", "\\n") for x in al), MaxLen=n, Insert=seqs([ins])[1:-1], MaxChar=c.pick(4, 6)), invariants=["Agree", "Emit"], name="edit_%d%s" % (n, len(al)))
        reqs = [(k, v) for k in r.cases for v in k["res"]]
        out = batch(h, [{"s": hx(k["t"]), "changes": [[k["r"], v[0], hx(ins)]]} for k, v in reqs])
        for (k, v), o in zip(reqs, out):
            c.validated += 1
            got = "crash" if "r" not in o else None if o["r"] is None else unhx(o["r"])
            want = v[1]["t"] if v[1]["ok"] else None
            if got != want:
                c.violation("replacing %s (length %d) of %r by %r yields %r instead of %r" % (k["r"], v[0], k["t"], ins, got, want), {"text": k["t"], "range": k["r"], "rangeLength": v[0], "insert": ins})
    inv = ["InSync", "Lost", "Wellformed", "NoErrors", "Emit"]
    texts = ["", "a", "let\n  x = 1;\nin é", "{ a = \"𝄞\"; b = 𝄞; }\n", "x\r\n y\r\n", "rec { é€ = a; a.b = 1; a.b = 2; }", "''\n  𝄞 ${x}\n''"]
    ins = ["", "b", "\n", "𝄞é", "{ y = 1;\n}", " "]
    jobs = []
    name = lambda: dict(zip(["d1", "d2", "d3"], rnd.choice([["a.nix", "b.nix", "c.nix"], ["a", "a.nix", "a.nix.nix"], ["x y.nix", "é.nix", "x.nix"], ["A.nix", "a.nix", "sub/a.nix"]])))
    small = dict(Texts=seqs(["", "a𝄞\n"]), Inserts=seqs(["", "é\n"]), MaxEdits=1, Wild="{<<0, 1>>, <<0, 2>>, <<1, 0>>, <<2, 0>>}")
    r = c.tlc("DocSync", dict(small, Docs='{"d1"}', MaxOps=c.pick(2, 3), MinOps=2, Errors="TRUE"), invariants=inv, name="short")
    cs = r.cases if len(r.cases) < c.pick(1500, 10**6) else rnd.sample(r.cases, c.pick(1500, 40000))
    jobs += [(k["hist"], name(), rnd.random() < .1, "one") for k in cs]
    big = dict(Texts=seqs(texts), Inserts=seqs(ins), Wild=grid(4, 5))
    for nm, docs, ed, er, n in (("two", '{"d1", "d2"}', 3, "FALSE", 60), ("three", '{"d1", "d2", "d3"}', 2, "TRUE", 60), ("one", '{"d1"}', 4, "TRUE", 60)):
        r = c.tlc("DocSync", dict(big, Docs=docs, MaxOps=12, MinOps=10, MaxEdits=ed, Errors=er), invariants=inv, name=nm, simulate=c.pick(n, 3000), depth=60, workers=1)
        cs = {json.dumps(k["hist"]): k for k in r.cases}
        cs = list(cs.values())
        cs = rnd.sample(cs, min(len(cs), c.pick(150, 6000)))
        jobs += [(k["hist"], name(), rnd.random() < .6, "all") for k in cs]
    histories(c, exe, jobs)
    c.extra["histories"] = len(jobs)

if __name__ == "__main__":
    main(run, "C01")
