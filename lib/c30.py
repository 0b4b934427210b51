"""C30: the server does what it announces, and options switch exactly their features."""
from common import *
from lspbatch import INIT
from lsp import Server
import random, shutil, shlex, tempfile, glob
from concurrent.futures import ThreadPoolExecutor

FAKE = os.path.join(VERIF, "harness", "fake_worker.py")
NAME = {"hints": "inlay-hints", "tokens": "semantic-tokens", "pretty": "pretty", "log": "log", "nixpkgs": "nixpkgs-expr", "nixos": "nixos-options-expr", "config": "config", "pkgerr": "nixpkgs-worker-stderr", "opterr": "option-worker-stderr", "lit": "lit-test"}
KINDS = {"hints": ["on", "off", "bad"], "tokens": ["on", "off", "bad"], "pretty": ["on", "off", "bad"], "log": ["error", "info", "debug", "verbose", "bad"], "nixpkgs": ["given"], "nixos": ["given"],
         "config": ["given"], "pkgerr": ["given"], "opterr": ["given"], "version": ["asked"], "help": ["asked"], "unknown": ["bad"], "position": ["bad"]}
FORMS = {"on": ["", "=true", "=TRUE", "=True", "=1", "="], "off": ["=false", "=FALSE", "=False", "=0"], "bad": ["=maybe", "=2", "=yes", "=00"]}
EXPRS = ["QQ%s", "{ QQ%s = 1; }", "QQ%s \"x y\" ''z''", "QQ%s\\\\ \\n", "(QQ%s: é𝄞) $HOME `x`"]
def quoted(a, rnd):
    """An argument as a word of NIXD_FLAGS."""
    k = rnd.randrange(3)
    if k == 0 and "'" not in a and "\\" not in a: return "'%s'" % a
    if k == 1: return '"%s"' % a.replace("\\", "\\\\").replace('"', '\\"')
    return re.sub(r"([\s\"'\\])", r"\\\1", a)

class Raw(Server):
    """keeps the bodies as they are written"""
    def _read(self):
        f, self.bodies, self.wrong = self.p.stdout, [], None
        while True:
            h = f.readline()
            if not h: break
            m = re.fullmatch(rb"Content-Length: (\d+)\r\n", h)
            if not m or f.readline() != b"\r\n": self.wrong = h; break
            b = f.read(int(m.group(1)))
            try: j = json.loads(b)
            except ValueError: self.wrong = b; break
            self.bodies.append(b)
            self.q.put(j)
        self.q.put(None)

TEXT = "{ pkgs, f }: with pkgs; [ zed (f 1) ]\n"
FULL = "{ pkgs, lib }:\nlet\n  a = pkgs.zed;\n  unused = 1;\nin\n{ b.c = a; b.d = \"s\"; e = lib.id a; f = undefined; g = [ (1) ./f.nix ]; }\n"
class Play:
    def __init__(self, exe, case, seed):
        self.case, self.rnd = case, random.Random(seed)
        self.dir = tempfile.mkdtemp(prefix="c30_")
        self.words, self.env, self.values = [], [], {}
        # the environment is read before the command line: of an option given again the last counts
        for g in sorted(case["given"], key=lambda g: g["at"] != "env"):
            w = self.word(g)
            (self.env if g["at"] == "env" else self.words).extend(w)
        open(self.dir + "/worker", "w").write("#!/bin/sh\necho VERIFWORKER >&2\nexec %s\n" % shlex.quote(FAKE))
        os.chmod(self.dir + "/worker", 0o755)
        os.mkdir(self.dir + "/err")
        json.dump({r: {"zed": {"!": {"Meta": {"Type": 1}, "PackageDesc": {"Name": "zed", "Version": "7.7"}}}} for r in ["%s" % self.role("nixpkgs")]}, open(self.dir + "/answers.json", "w"))
        self.e = {"NIXD_ATTRSET_EVAL": self.dir + "/worker", "VERIF_WORKER": self.dir, "NIXD_FLAGS": " ".join(quoted(a, self.rnd) for a in self.env)}
        if not self.env and self.rnd.random() < .5: self.e["NIXD_FLAGS"] = ""
        self.exe = exe
    def role(self, o):
        x = self.values.get(o) or {"nixpkgs": "import <nixpkgs> { }", "nixos": None}[o]
        return x and "".join(ch if ch.isalnum() or ch == "_" else "-" for ch in str(x))[:40]
    def word(self, g):
        o, v, rnd = g["o"], g["v"], self.rnd
        dash = rnd.choice(["--", "--", "-"])
        if o == "unknown": return [dash + rnd.choice(["no-such", "no-such=1", "inlay-hint", "Log=info", "nixpkgs_expr=1"])]
        if o == "position": return [rnd.choice(["x", "a.nix", "/v/a.nix"])]
        if o in ("version", "help"): return [dash + o]
        if o in ("hints", "tokens", "pretty"): return [dash + NAME[o] + rnd.choice(FORMS[v])]
        if o == "log": x = v if v != "bad" else rnd.choice(["loud", "INFO", "1"])
        elif o == "config": x = json.dumps({"formatting": {"command": ["printf", "from config"]}}, indent=rnd.choice([None, 1]))
        elif o in ("nixpkgs", "nixos"): x = rnd.choice(EXPRS) % o
        elif o == "pkgerr": x = self.dir + "/err/pkgs err"
        elif o == "opterr": x = self.dir + "/err"
        self.values[o] = x
        return [dash + NAME[o] + "=" + x] if rnd.random() < .7 else [dash + NAME[o], x]
    def run(self):
        """What is wrong, or None."""
        errf = open(self.dir + "/stderr", "wb")
        s = Raw(self.exe, self.words, env=self.e, stderr=errf)
        try: return self.check(s)
        except (EOFError, TimeoutError, BrokenPipeError) as e: return "the server %s" % ("does not answer" if isinstance(e, TimeoutError) else "ends")
        finally:
            s.p.kill(); s.p.wait()
            errf.close()
            shutil.rmtree(self.dir, ignore_errors=True)
    def check(self, s):
        k, w = self.case, self.case["with"]
        if k["outcome"] != "runs":
            try: rc = s.p.wait(60)
            except subprocess.TimeoutExpired: return "it runs, though %s" % ("an option is wrong" if k["outcome"] == "refused" else "only asked about itself")
            s.t.join(10)
            if k["mixed"]: return None
            if k["outcome"] == "refused": return None if rc and not s.bodies and s.wrong is None and glob.glob(self.dir + "/pid.*") == [] else "it refuses the options with status %d and prints %r" % (rc, s.wrong or s.bodies)
            return None if rc == 0 and glob.glob(self.dir + "/pid.*") == [] else "asked about itself it ends with status %d" % rc
        caps = json.loads(json.dumps(INIT))
        r = s.wait_reply(s.request("initialize", caps), 60)["result"]["capabilities"]
        s.notify("initialized", {})
        on = {f: (w[f] if w[f] != "default" else d) for f, d in (("hints", "on"), ("tokens", "off"), ("pretty", "off"), ("log", "info"))}
        if bool(r.get("semanticTokensProvider")) != (on["tokens"] == "on"): return "semantic tokens are %s: %s" % (on["tokens"], r.get("semanticTokensProvider"))
        uri = "file:///v/a b.nix"
        for u, t in ((uri, TEXT), (uri + "2", FULL)): s.notify("textDocument/didOpen", {"textDocument": {"uri": u, "languageId": "nix", "version": 1, "text": t}})
        def ask(m, p, u=uri):
            q = s.wait_reply(s.request(m, dict({"textDocument": {"uri": u}}, **p)), 60)
            return q
        n = len(TEXT)
        h = ask("textDocument/inlayHint", {"range": {"start": {"line": 0, "character": 0}, "end": {"line": 1, "character": 0}}})
        want = [TEXT.index("zed") + 3] if on["hints"] == "on" else []
        if [x["position"]["character"] for x in h.get("result") or []] != want: return "inlay hints are %s: %s" % (on["hints"], h)
        # everything announced is there
        here = {"position": {"line": 2, "character": 12}}
        todo = [("definitionProvider", "textDocument/definition", here), ("documentLinkProvider", "textDocument/documentLink", {}), ("documentSymbolProvider", "textDocument/documentSymbol", {}),
                ("foldingRangeProvider", "textDocument/foldingRange", {}), ("completionProvider", "textDocument/completion", dict(here, context={"triggerKind": 1})),
                ("referencesProvider", "textDocument/references", {"position": {"line": 2, "character": 2}, "context": {"includeDeclaration": True}}),
                ("documentHighlightProvider", "textDocument/documentHighlight", {"position": {"line": 2, "character": 2}}), ("hoverProvider", "textDocument/hover", here),
                ("documentFormattingProvider", "textDocument/formatting", {"options": {"tabSize": 2, "insertSpaces": True}}), ("renameProvider", "textDocument/rename", {"position": {"line": 2, "character": 2}, "newName": "nn"}),
                ("renameProvider", "textDocument/prepareRename", {"position": {"line": 2, "character": 2}}), ("semanticTokensProvider", "textDocument/semanticTokens/full", {}),
                ("inlayHintProvider", "textDocument/inlayHint", {"range": {"start": {"line": 0, "character": 0}, "end": {"line": 9, "character": 0}}})]
        kinds = (r.get("codeActionProvider") or {}).get("codeActionKinds") or []
        for prov, m, p in todo:
            if prov not in r:
                if prov != "semanticTokensProvider": return "%s is not announced" % prov
                continue
            q = ask(m, p, uri + "2")
            if "result" not in q and m != "textDocument/formatting": return "%s is announced, asking fails: %s" % (prov, q)
            if m == "textDocument/formatting" and w["config"] == "given" and (not q.get("result") or q["result"][0]["newText"] != "from config"): return "the command of --config does not format: %s" % q
            if m == "textDocument/semanticTokens/full":
                d, leg = q["result"]["data"], r["semanticTokensProvider"]["legend"]
                if not d or len(d) % 5 or any(x >= len(leg["tokenTypes"]) for x in d[3::5]) or any(x >> len(leg["tokenModifiers"]) for x in d[4::5]): return "tokens are not of the announced types: %s" % d
        for line in range(7):
            for ch in range(0, 40, 5):
                p = {"line": line, "character": min(ch, len(FULL.split("\n")[line]))}
                q = ask("textDocument/codeAction", {"range": {"start": p, "end": p}, "context": {"diagnostics": []}}, uri + "2")
                for a in q["result"]:
                    if not any(a.get("kind") == x or (a.get("kind") or "").startswith(x + ".") for x in kinds): return "an action of kind %s is offered, announced are %s" % (a.get("kind"), kinds)
                if line != 5: break
        # documents are kept as announced
        if (r.get("textDocumentSync") or {}).get("change") != 2 or not r["textDocumentSync"].get("openClose"): return "incremental changes are not announced: %s" % r.get("textDocumentSync")
        s.notify("textDocument/didChange", {"textDocument": {"uri": uri, "version": 2}, "contentChanges": [{"range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": n - 1}}, "text": "{ only = 1; }"}]})
        if r["textDocumentSync"].get("save"): s.notify("textDocument/didSave", {"textDocument": {"uri": uri}})
        q = ask("textDocument/documentSymbol", {})
        if [x["name"] for x in q.get("result") or []] != ["only"]: return "an incremental change is not followed: %s" % q
        # workers
        end = time.time() + 30
        def logs(): return {os.path.basename(x).rsplit(".", 2)[0]: [json.loads(l) for l in open(x)] for x in glob.glob(self.dir + "/*.log")}
        def first(o): return [v[0][1] for v in logs().values() if v and v[0][1] == self.values.get(o)]
        for o in ("nixpkgs", "nixos"):
            if w[o] == "given":
                while not first(o) and time.time() < end: time.sleep(.02)
                if not first(o): return "no worker is told %r: %s" % (self.values[o], {a: v[:1] for a, v in logs().items()})
        for o, f in (("pkgerr", "pkgs err"), ("opterr", "nixos")):
            p = self.dir + "/err/" + f if o == "opterr" else self.values.get(o, self.dir + "/err/" + f)
            def there(): return os.path.exists(p) and b"VERIFWORKER" in open(p, "rb").read()
            while w[o] == "given" and not there() and time.time() < end: time.sleep(.02)
            if there() != (w[o] == "given"): return "what %s says is not in %s" % (o, f)
        s.wait_reply(s.request("shutdown"), 30)
        s.notify("exit")
        rc = s.close()
        s.t.join(10)
        if rc != 0: return "it ends with status %s" % rc
        if s.wrong is not None: return "it writes no message: %r" % s.wrong
        for b in s.bodies:
            if (b"\n" in b) != (on["pretty"] == "on"): return "printing is pretty (%s): %r" % (on["pretty"], b[:200])
        err = open(self.dir + "/stderr", "rb").read()
        if b"VERIFWORKER" in err: return "it prints what its workers say"
        level = ["error", "info", "debug", "verbose"].index(on["log"])
        if (b">>> " in err) != (level >= 2): return "log level %s, and messages are logged: %s" % (on["log"], b">>> " in err)
        if level == 0 and re.search(rb"^[IDV]\[", err, re.M): return "log level error: %r" % err[:300]
        return None

def run(c):
    exe = c.build("nixd")
    rnd = random.Random(c.seed)
    kinds = "[o \\in {%s} |-> CASE %s]" % (", ".join('"%s"' % o for o in KINDS), " [] ".join('o = "%s" -> {%s}' % (o, ", ".join('"%s"' % v for v in vs)) for o, vs in KINDS.items()))
    con = lambda n, rule="last": dict(Kinds=kinds, Places='{"arg", "env"}', MaxGiven=n, Rule='"%s"' % rule)
    inv = ["Says", "Alone", "Own", "Emit"]
    cases = c.tlc("Options", con(1), invariants=inv, name="one").cases
    two = c.tlc("Options", con(2), invariants=inv, name="two").cases
    cases += rnd.sample(two, c.pick(110, len(two)))
    many = c.tlc("Options", dict(con(7), Kinds=kinds.replace(', "bad"', "")), invariants=inv, name="many", simulate=c.pick(4000, 40000), depth=9, workers=1).cases
    runs = [k for k in many if k["outcome"] == "runs" and len(k["given"]) > 2]
    cases += rnd.sample(runs, min(len(runs), c.pick(90, 3000))) + rnd.sample(many, min(len(many), 40))
    for rule in ("first", "env"):
        if not c.tlc("Options", con(2, rule), invariants=["Says"], name=rule, may_fail=True).violated: raise Inconclusive("the model does not tell the rule %s" % rule)
    seeds = [rnd.random() for _ in cases]
    def play(x):
        p = Play(exe, *x)
        return p, p.run()
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(play, zip(cases, seeds)))
    for k, (p, e) in zip(cases, res):
        c.validated += 1
        if e: c.violation("with %s and NIXD_FLAGS=%r: %s" % (p.words, p.e["NIXD_FLAGS"], e), {"args": p.words, "env": p.e["NIXD_FLAGS"], "case": k}, sig=e.split(":")[0])
    c.sample({"args": res[-1][0].words, "NIXD_FLAGS": res[-1][0].e["NIXD_FLAGS"], "outcome": cases[-1]["outcome"]})

if __name__ == "__main__":
    main(run, "C30")
