"""C23: what is asked of the evaluators is the attribute path under the cursor."""
from common import *
from lspbatch import *
import glob, random, re, shutil, sys, tempfile, threading, time
from scope import programs, Prog, S

sys.path.insert(0, os.path.join(VERIF, "harness"))
import worker_names
FAKE = os.path.join(VERIF, "harness", "fake_worker.py")
ARGS = ["--nixpkgs-expr=NIXPKGS", "--nixos-options-expr=NIXOS"]
FORMS = ["let", "with", "withother", "fn", "if", "app", "op", "paren", "list", "str", "set", "rec", "select", "or", "open", "quote", "dynamic", "hole", "inherit", "from"]
CONSTS = dict(MaxBinds=1, MaxPath=2, DefNames=S(["a", "config", "pkgs"]), VarNames=S(["a", "pkgs", "lib", "map"]), AttrNames=S(["a", "b", "config"]), Globals=S(["map"]),
              Few=0)

class Asker:
    """One server; what each request makes it ask its workers."""
    def __init__(self, exe, args=ARGS):
        self.dir = tempfile.mkdtemp(prefix="c23_")
        self.s = start(exe, args, {"NIXD_ATTRSET_EVAL": FAKE, "VERIF_WORKER": self.dir, "VERIF_ANSWER": "echo", "VERIF_ROLES": ",".join(a.split("=")[1] for a in args)})
        self.files, self.n = {}, 0
        roles = [a.split("=")[1] for a in args]
        t = time.time()
        while len(self.files) < len(roles):
            for r in roles:
                for f in glob.glob("%s/%s.*.log" % (self.dir, r)): self.files.setdefault(r, open(f))
            if time.time() - t > 60: raise Inconclusive("the workers were not started")
            time.sleep(0.01)
        for r in roles:
            while not self.files[r].readline():
                if time.time() - t > 60: raise Inconclusive("nothing was asked of the workers")
                time.sleep(0.01)
    def wait(self, i):
        def other(m):
            if "id" in m and "method" in m: self.s.send({"jsonrpc": "2.0", "id": m["id"], "result": [None] if m["method"] == "workspace/configuration" else None})
        return self.s.wait_reply(i, 60, other)
    def open(self, text):
        self.n += 1
        self.uri = "file:///q%d.nix" % self.n
        self.s.notify("textDocument/didOpen", {"textDocument": {"uri": self.uri, "languageId": "nix", "version": 1, "text": text}})
    def ask(self, method, params):
        """reply and [[role, method, params]]"""
        m = self.wait(self.s.request("textDocument/" + method, dict({"textDocument": {"uri": self.uri}}, **params)))
        if m is None: raise EOFError
        got = []
        for r, f in self.files.items():
            for line in f.read().splitlines(): got.append([r] + json.loads(line))
        return m, got
    def resolve(self, item):
        m = self.wait(self.s.request("completionItem/resolve", item))
        if m is None: raise EOFError
        got = []
        for r, f in self.files.items():
            for line in f.read().splitlines(): got.append([r] + json.loads(line))
        return m, got
    def close(self):
        try: self.s.close()
        finally: shutil.rmtree(self.dir, ignore_errors=True)

def texts(j):
    """strings in a reply"""
    if isinstance(j, str): return [j]
    if isinstance(j, dict): return [x for v in j.values() for x in texts(v)]
    if isinstance(j, list): return [x for v in j for x in texts(v)]
    return []

def want(a, what, opt):
    q = a[what]
    if not q["ok"]: return []
    p = list(q["p"])
    role = "NIXOS" if opt else "NIXPKGS"
    if what in ("hover", "def", "inlay"): return [[role, "attrset/optionInfo" if opt else "attrset/attrpathInfo", p]]
    return [[role, "attrset/optionComplete" if opt else "attrset/attrpathComplete", {"Scope": p[:-1], "Prefix": p[-1] if p else ""}]]

def check(a, p, rnd, opts_only=False):
    """Violations of one program."""
    o, text, bad = p.off, p.text, []
    a.open(text)
    def mine(q): return [x for x in q if not (opts_only and x[0] == "NIXPKGS")]
    for k in p.k["occ"]:
        b = o[k["id"]]
        n = k["n"]
        e = b + len(n)
        if k["r"] == "e": b = e = b + len(next(x["s"] for i, x in enumerate(p.k["out"], 1) if i == k["id"]))
        if k["r"] == "h": at = b
        elif k["r"] == "e": at = e
        else: at = rnd.choice([b, b, e, (b + e) // 2])
        A = k["a"]
        q = pos(text, at)
        for what, method in (("hover", "hover"), ("def", "definition"), ("comp", "completion")):
            if k["r"] == "e" and what != "comp": continue
            m, got = a.ask(method, {"position": q})
            w = mine(want(A, what, A["opt"]))
            if got != w:
                bad.append("%r: %s at %d (%s) asks %s, not %s" % (text, method, at, n or {"h": "between bindings", "e": "after the dot"}[k["r"]], short(got), short(w)))
                continue
            r = m.get("result")
            path = ".".join(w[0][2]) if w and what != "comp" else None
            if what == "hover":
                if bool(w) != bool(r): bad.append("%r: hover at %d answers %s" % (text, at, r)); continue
                if r:
                    if "<%s>" % path not in str(r["contents"]): bad.append("%r: hover at %d does not show the answer of the worker: %s" % (text, at, r))
                    x = rng(text, r["range"]) if r.get("range") else (0, len(text))
                    if None in x or not x[0] <= at <= x[1] or not (k["r"] == "s" or x == (b, e)): bad.append("%r: hover at %d is about %s" % (text, at, r.get("range")))
            elif what == "def":
                us = [u for u in texts(r) if u.startswith("file:") and not u.startswith(a.uri)]
                from urllib.parse import unquote
                us = [unquote(u) for u in us]
                exp = [] if not w else ["file:///opt/" + path] if A["opt"] else ["file:///nix/<%s>" % path]
                if us != exp: bad.append("%r: definition at %d answers %s, not %s" % (text, at, us, exp))
            else:
                items = r["items"] if r else []
                mine_ = [i for i in items if i.get("textEdit") or i.get("kind") == 7]
                pre = w[0][2]["Prefix"] if w else ""
                exp = sorted(worker_names.echo(w[0][2]["Scope"], pre)) if w else []
                if sorted({i["label"] for i in mine_}) != exp: bad.append("%r: completion at %d offers %s, not %s" % (text, at, [i["label"] for i in mine_], exp))
                for i in [x for x in mine_ if x.get("data")][:1]:
                    if rnd.random() > .4: break
                    r2, got = a.resolve(i)
                    w2 = [["NIXPKGS", "attrset/attrpathInfo", w[0][2]["Scope"] + [i["label"]]]]
                    if got != w2: bad.append("%r: resolving the completion %s at %d asks %s, not %s" % (text, i["label"], at, short(got), short(w2)))
                    elif "<%s>" % ".".join(w2[0][2]) not in str(r2.get("result", {}).get("documentation")): bad.append("%r: resolving %s at %d answers %s" % (text, i["label"], at, r2))
                for i in mine_:
                    x = i.get("textEdit")
                    if x is None: ok = not pre
                    else:
                        x = rng(text, x["range"]); ok = x == (b, e) if k["r"] not in "he" else x[0] is not None and x[0] <= at <= x[1] and (k["r"] != "e" or x == (at, at))
                    if not ok: bad.append("%r: completion at %d replaces %s" % (text, at, i.get("textEdit"))); break
    m, got = a.ask("inlayHint", {"range": {"start": pos(text, 0), "end": pos(text, len(text))}})
    ins = [(o[k["id"]] + len(k["n"]), k["a"]["inlay"]["p"]) for k in p.k["occ"] if k["a"]["inlay"]["ok"]]
    w = [["NIXPKGS", "attrset/attrpathInfo", list(x)] for _, x in ins] if not opts_only else []
    if sorted(map(str, got)) != sorted(map(str, w)): bad.append("%r: inlay hints ask %s, not %s" % (text, short(got), short(w)))
    elif w:
        hints = sorted((off(text, h["position"]), h["label"] if isinstance(h["label"], str) else "".join(x["value"] for x in h["label"])) for h in m["result"])
        exp = sorted((e, ": <%s>" % ".".join(x)) for e, x in ins)
        if hints != exp: bad.append("%r: inlay hints are %s, not %s" % (text, hints, exp))
    a.s.notify("textDocument/didClose", {"textDocument": {"uri": a.uri}})
    return bad

def short(q): return "; ".join("%s %s" % (m.split("/")[1], json.dumps(p)) for _, m, p in q) or "nothing"

def replay(c, exe, cases, rnd, args=ARGS):
    ps = [(Prog(k, rnd if rnd.random() < .3 else None), rnd.random()) for k in cases]
    todo = list(ps)
    lock = threading.Lock()
    def work():
        a = Asker(exe, args)
        deaths = 0
        while True:
            with lock:
                if not todo: break
                p, seed = todo.pop()
            try:
                bad = check(a, p, random.Random(seed), len(args) == 1)
            except EOFError:
                deaths += 1
                bad = ["%r: the server died" % p.text]
                a.close()
                if deaths < 20: a = Asker(exe, args)
            with lock:
                c.validated += 1
                for b in bad: c.violation(b, {"text": p.text, "case": p.k}, sig=re.sub(r"^.*?': |^.*?\": ", "", b)[:20] + p.text)
                if len(p.k["occ"]) > 3: c.sample({"text": p.text, "asks": [[k["r"], k["n"], {w: k["a"][w]["p"] for w in ("hover", "def", "comp", "inlay") if k["a"][w]["ok"]}] for k in p.k["occ"]]}, 4)
            if deaths >= 20: break
        a.close()
    run_threads(work, min(8, len(ps) or 1))

def run_threads(f, n):
    errs = []
    def g():
        try: f()
        except BaseException as e: errs.append(e)
    ts = [threading.Thread(target=g) for _ in range(n)]
    for t in ts: t.start()
    for t in ts: t.join()
    if errs: raise errs[0]

def run(c):
    exe = c.build("nixd")
    rnd = random.Random(c.seed)
    def go(name, limit=None, args=ARGS, sim=None, **kw):
        con = dict(CONSTS, EmitAll="FALSE" if sim else "TRUE", Few=6 if sim else 0)
        con.update(kw)
        seen, cs = set(), []
        def add(k):
            key = " ".join(x["s"] for x in k["out"])
            if key not in seen: seen.add(key); cs.append(k)
        c.tlc("Query", con, invariants=["Sound", "Emit"], name=name, simulate=sim, depth=200 if sim else None, workers=1 if sim else 8, on_case=add, timeout=900)
        if limit and len(cs) > limit: cs = rnd.sample(cs, limit)
        replay(c, exe, cs, rnd, args)
    go("one", limit=c.pick(400, 20000), Budget=1, Forms=S(FORMS))
    go("withs", limit=c.pick(500, 40000), Budget=c.pick(3, 4), Forms=S(["with", "fn", "select"]), DefNames=S(["a", "pkgs"]), VarNames=S(["a", "pkgs", "lib"]), AttrNames=S("b"), MaxPath=1)
    go("sets", limit=c.pick(500, 40000), Budget=c.pick(2, 3), Forms=S(["set", "rec", "dynamic", "open", "hole", "paren", "if"]), DefNames=S(["a", "config"]), VarNames=S("a"), AttrNames=S("ab"))
    go("deep", sim=c.pick(1000, 40000), limit=c.pick(1200, 200000), Budget=8, MaxBinds=3, MaxPath=3, Forms=S(FORMS), DefNames=S(["a", "b", "config", "lib"]), VarNames=S(["a", "b", "pkgs", "lib", "x", "map"]), AttrNames=S(["a", "b", "config"]))
    go("optonly", sim=c.pick(60, 3000), limit=c.pick(100, 10000), args=ARGS[1:], Budget=6, MaxBinds=3, MaxPath=2, Forms=S([f for f in FORMS if f not in ("with", "withother")]))

if __name__ == "__main__":
    main(run, "C23")
