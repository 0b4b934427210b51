"""C26: what the evaluators know is what the user is shown."""
from common import *
from lspbatch import *
import random, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

FAKE = os.path.join(VERIF, "harness", "fake_worker.py")
CHARS = ["", "é", "𝄞", "`", "*", "_", "[", "](", "\\", "\n", "\n\n", "# ", "<b>", "\t", "\r\n", "|", "${x}", "''", "\"", "{0}", "%s", "\0", "```", "  ", "&lt;", "\u2028"]
LOC = lambda f, l: {"uri": "file://" + f, "range": {"start": {"line": l, "character": 2}, "end": {"line": l, "character": 5}}}
POSITIONS = {"empty": "", "line": "/nix/a b.nix:%d", "file": "/nix/x%d.nix", "colons": "/nix/a:%d:c.nix:7", "relative": "nix/a%d.nix:3", "word": "w%d", "noline": "/nix/a:%dx"}
def place(pos, i):
    """file and line of a position that is a location"""
    return {"line": ("/nix/a b.nix", i), "file": ("/nix/x%d.nix" % i, 0), "colons": ("/nix/a:%d:c.nix" % i, 7), "noline": ("/nix/a:%dx" % i, 0)}[pos]

class Words:
    """texts of fields: unlike one another, of any characters inside"""
    def __init__(self, rnd): self.rnd, self.n = rnd, 0
    def __call__(self, tag):
        self.n += 1
        return "Q%s%d" % (tag, self.n) + "".join(self.rnd.choice(CHARS) for _ in range(self.rnd.choice([0, 0, 1, 3]))) + "%dZ" % self.n

def package(p, i, w):
    """the worker's answer, and the texts of its fields"""
    t = {}
    d = {"Meta": {"Type": 1}, "PackageDesc": {}}
    for f, k in (("name", "Name"), ("home", "Homepage"), ("desc", "Description"), ("long", "LongDescription"), ("version", "Version")):
        if p[f] != "absent": d["PackageDesc"][k] = t[f] = w(f) if p[f] == "given" else ""
        elif w.rnd.random() < .3: d["PackageDesc"][k] = None
    if p["pos"] != "absent": d["PackageDesc"]["Position"] = POSITIONS[p["pos"]] % ((i,) * POSITIONS[p["pos"]].count("%d"))
    if p["loc"] == "given": d["Meta"]["Location"] = LOC("/loc/%d" % i, i)
    v = p["value"]
    if v["doc"] != "none":
        t["doc"] = w("doc") if v["doc"] == "given" else ""
        t["arg1"], t["arg2"] = w("a"), w("b")
        t["arity"] = str(v["arity"])
        d["ValueDesc"] = {"arity": v["arity"], "doc": t["doc"], "args": [t["arg1"], t["arg2"]][:v["args"]]}
    return d, t

LABELS = {"name": set(), "home": {"homepage"}, "desc": {"Description"}, "long": {"Description"}, "doc": set(), "arity": {"Arity"}, "arg1": {"Args"}, "arg2": {"Args"}, "type": set(), "typeDesc": set()}
def shows(text, fields, t, extra=()):
    """None, or what is wrong: the texts of the fields in this order, and no others' words"""
    at, rest = 0, ""
    for f in fields:
        k = text.find(t[f], at)
        if k < 0: return "does not show its %s %r (in this order)" % (f, t[f])
        rest += text[at:k] + " "
        at = k + len(t[f])
    rest += text[at:]
    words = set(re.findall(r"[A-Za-z0-9]+", rest)) - set(extra)
    for f in fields: words -= LABELS[f]
    return "shows %s besides" % sorted(words) if words else None

class Workers:
    def __init__(self, exe, answers, config=None, snippets=False, extra=()):
        self.dir = tempfile.mkdtemp(prefix="c26_")
        json.dump(answers, open(self.dir + "/answers.json", "w"))
        caps = json.loads(json.dumps(INIT))
        if snippets: caps["capabilities"]["textDocument"]["completion"] = {"completionItem": {"snippetSupport": True}}
        self.s = start(exe, ["--nixpkgs-expr=PKGS", "--nixos-options-expr=w1"] + (["--config=" + json.dumps({"options": config})] if config else []) + list(extra),
                       {"NIXD_ATTRSET_EVAL": FAKE, "VERIF_WORKER": self.dir, "VERIF_ROLES": ",".join(answers)}, caps)
        self.n = 0
    def open(self, text):
        self.n += 1
        u = "file:///v/%d.nix" % self.n
        self.s.notify("textDocument/didOpen", {"textDocument": {"uri": u, "languageId": "nix", "version": 1, "text": text}})
        return u
    def ask(self, reqs):
        ids = [self.s.request(m, p) for m, p in reqs]
        got = {}
        want = set(ids)
        while len(got) < len(want):
            m = self.s.recv(60)
            if m is None: raise EOFError
            if "method" not in m and m.get("id") in want: got[m["id"]] = m
            elif "id" in m and "method" in m: self.s.send({"jsonrpc": "2.0", "id": m["id"], "result": [None] if m["method"] == "workspace/configuration" else None})
        return [got[i] for i in ids]
    def close(self):
        try:
            self.s.send({"jsonrpc": "2.0", "id": "bye", "method": "shutdown"})
            self.s.notify("exit")
            self.s.close()
        finally: shutil.rmtree(self.dir, ignore_errors=True)

def hovered(r):
    h = r.get("result")
    return None if h is None else h["contents"]["value"]
def located(r):
    return [(urllib.parse.unquote(x["uri"]), x["range"]["start"]["line"], x["range"]["start"]["character"]) for x in (r.get("result") if isinstance(r.get("result"), list) else [r["result"]] if r.get("result") else [])]
import urllib.parse

def packages(c, exe, cases, rnd):
    w = Words(rnd)
    name = lambda i: "p%05d" % i
    known, texts = {}, []
    for i, k in enumerate(cases):
        d, t = package(k["known"][0], i, w)
        if k["known"][0]["name"] != "unknown": known[name(i)] = {"!": d}
        texts.append(t)
    ws = Workers(exe, {"PKGS": known, "w1": {}})
    try:
        sel = "{ pkgs }: [ " + "\n".join("pkgs.%s" % name(i) for i in range(len(cases))) + " ]"
        wth = "{ pkgs }: with pkgs; [ " + "\n".join(name(i) for i in range(len(cases))) + " ]"
        u1, u2 = ws.open(sel), ws.open(wth)
        where = lambda text, i: {"position": pos(text, text.index(name(i)) + 2)}
        reqs = []
        for i in range(len(cases)):
            o = sel.index(name(i))
            p = {"line": i, "character": len("{ pkgs }: [ " if i == 0 else "") + 7}
            q = dict(p, character=p["character"] + 4)
            wp = {"line": i, "character": (len("{ pkgs }: with pkgs; [ ") if i == 0 else 0) + 2}
            reqs += [("textDocument/hover", {"textDocument": {"uri": u1}, "position": p}), ("textDocument/definition", {"textDocument": {"uri": u1}, "position": p}),
                     ("textDocument/completion", {"textDocument": {"uri": u1}, "position": q, "context": {"triggerKind": 1}}),
                     ("textDocument/hover", {"textDocument": {"uri": u2}, "position": wp}), ("textDocument/definition", {"textDocument": {"uri": u2}, "position": wp})]
        rs = []
        for a in range(0, len(reqs), 50): rs += ws.ask(reqs[a:a + 50])
        hints, = ws.ask([("textDocument/inlayHint", {"textDocument": {"uri": u2}, "range": {"start": {"line": 0, "character": 0}, "end": {"line": len(cases), "character": 0}}})])
        hint = {}
        for h in hints.get("result") or []: hint.setdefault(h["position"]["line"], []).append(h)
        items = [[x for x in (rs[5 * i + 2].get("result") or {}).get("items", [])] for i in range(len(cases))]
        todo = [(i, x[0]) for i, x in enumerate(items) if len(x) == 1]
        res = []
        for a in range(0, len(todo), 50): res += ws.ask([("completionItem/resolve", x) for _, x in todo[a:a + 50]])
        resolved = {i: r for (i, _), r in zip(todo, res)}
        for i, (k, t) in enumerate(zip(cases, texts)):
            c.validated += 1
            p, info = k["known"][0], known.get(name(i), {}).get("!")
            def bad(what): c.violation("%s, of which is known %s" % (what, json.dumps(info, ensure_ascii=False)), {"known": info}, sig=what.split()[0] + " " + json.dumps(p, sort_keys=True))
            empty = not k["hover"]["show"]
            for r, how in ((rs[5 * i], "hovering"), (rs[5 * i + 3], "hovering a name of with")):
                h = hovered(r)
                if h is None:
                    if not empty: bad("%s a package shows nothing" % how)
                else:
                    # an empty field may have its label
                    e = shows(h, k["hover"]["show"], t, {x for f, ls in LABELS.items() if t.get(f) == "" for x in ls})
                    if e: bad("%s a package %s: %r" % (how, e, h))
            want = []
            for d in k["defs"]:
                want = [("file:///loc/%d" % i, i, 2)] if d["at"] == "loc" else [("file://" + place(d["at"], i)[0], place(d["at"], i)[1], 0)]
            d1 = located(rs[5 * i + 1])
            if d1 != want: bad("definition of a package is %s instead of %s" % (d1, want))
            d2 = [x for x in located(rs[5 * i + 4]) if x[0] != u2]
            if d2 != want: bad("definition of a name of with is %s instead of %s" % (d2, want))
            hs = hint.pop(i, [])
            if k["hint"]:
                if len(hs) != 1 or shows(hs[0]["label"], k["hint"], t) if "version" in LABELS else len(hs) != 1 or t["version"] not in hs[0]["label"] or re.search(r"\w", hs[0]["label"].replace(t["version"], "")):
                    bad("hints for a package are %s" % hs)
                elif hs[0]["position"]["character"] != (len("{ pkgs }: with pkgs; [ ") if i == 0 else 0) + len(name(i)): bad("hint for a package stands elsewhere: %s" % hs)
            elif p["version"] == "absent" and hs: bad("hints for a package without version are %s" % hs)
            if info is None:
                if items[i]: bad("completion of a package nobody knows yields %s" % items[i])
                continue
            if i not in resolved: bad("completion of a package yields %s" % items[i]); continue
            r = resolved[i].get("result")
            if not r: bad("resolving the completion of a package yields %s" % resolved[i]); continue
            if r["label"] != name(i): bad("resolving the completion of a package yields another: %s" % r)
            doc = (r.get("documentation") or {}).get("value", "")
            e = shows(doc, k["resolve"], t)
            if e: bad("resolving the completion of a package %s: %r" % (e, doc))
            if k["hint"] and r.get("detail") != t["version"]: bad("resolving the completion of a package tells version %r" % r.get("detail"))
            if not k["hint"] and re.search(r"\w", r.get("detail") or ""): bad("resolving the completion of a package tells version %r" % r.get("detail"))
        if hint: c.violation("hints elsewhere: %s" % hint, {}, sig="hints")
        # only what is in the range is hinted
        a, b = len(cases) // 3, len(cases) // 2
        part, = ws.ask([("textDocument/inlayHint", {"textDocument": {"uri": u2}, "range": {"start": {"line": a, "character": 0}, "end": {"line": b, "character": 0}}})])
        lines = sorted(h["position"]["line"] for h in part.get("result") or [])
        want = sorted(h["position"]["line"] for h in hints.get("result") or [] if a <= h["position"]["line"] < b)
        if lines != want: c.violation("hints of lines %d to %d are at %s instead of %s" % (a, b, lines[:20], want[:20]), {}, sig="range")
        ws.close()
    except (EOFError, TimeoutError) as e:
        ws.s.p.kill(); ws.s.p.wait()
        c.violation("showing packages: the server %s" % ("dies" if isinstance(e, EOFError) else "does not answer"), {}, sig="packages")

def option(o, i, by, w):
    t = {"origin": by}
    d = {}
    if o["desc"] != "absent": d["Description"] = t["desc"] = w("desc") if o["desc"] == "given" else ""
    elif w.rnd.random() < .3: d["Description"] = None
    if o["type"]["name"] != "none":
        d["Type"] = {}
        if o["type"]["name"] == "given": d["Type"]["Name"] = t["type"] = w("type")
        if o["type"]["desc"] == "given": d["Type"]["Description"] = t["typeDesc"] = w("td")
    if o["decls"] or w.rnd.random() < .5: d["Declarations"] = [LOC("/opt/%s/%d/%d" % (by, i, n + 1), n + i) for n in range(o["decls"])]
    if o["example"] == "given": d["Example"] = t["example"] = w("ex").replace("\\", "").replace("$", "").replace("}", "")
    if o["default"] == "given": d["Default"] = t["default"] = w("df").replace("\\", "").replace("$", "").replace("}", "")
    if o["default"] == "same": d["Default"] = t["default"] = t.get("example") or w("df").replace("\\", "").replace("$", "").replace("}", "")
    return d, t

def options(c, exe, cases, rnd):
    w = Words(rnd)
    name = lambda i: "o%05d" % i
    # the workers in the order of their names
    roles = ["nixos", "zzz"]
    known = {r: {} for r in roles}
    texts = []
    for i, k in enumerate(cases):
        ts = []
        for r, o in zip(roles, k["known"]):
            if o["desc"] == "unknown": ts.append({"origin": r}); continue
            d, t = option(o, i, r, w)
            known[r][name(i)] = {"!": d}
            ts.append(t)
        texts.append(ts)
    ws = Workers(exe, {"PKGS": {}, "w1": known["nixos"], "w2": known["zzz"]}, {"zzz": {"expr": "w2"}}, snippets=rnd.random() < .5)
    try:
        text = "{\n" + "\n".join("%s = 1;" % name(i) for i in range(len(cases))) + "\n}"
        u = ws.open(text)
        # the configured worker may not be asked yet: configuration applies before the first reply
        reqs = []
        for i in range(len(cases)):
            p = {"line": i + 1, "character": 3}
            q = {"line": i + 1, "character": 6}
            reqs += [("textDocument/hover", {"textDocument": {"uri": u}, "position": p}), ("textDocument/definition", {"textDocument": {"uri": u}, "position": p}),
                     ("textDocument/completion", {"textDocument": {"uri": u}, "position": q, "context": {"triggerKind": 1}})]
        rs = []
        for a in range(0, len(reqs), 50): rs += ws.ask(reqs[a:a + 50])
        for i, (k, ts) in enumerate(zip(cases, texts)):
            c.validated += 1
            info = {r: known[r].get(name(i), {}).get("!") for r in roles}
            def bad(what): c.violation("%s, of which is known %s" % (what, json.dumps(info, ensure_ascii=False)), {"known": info}, sig=what.split()[0] + " " + json.dumps(k["known"], sort_keys=True))
            h = hovered(rs[3 * i])
            if k["hover"]["by"] == 0:
                if h is not None and re.search(r"\w", h): bad("hovering an option nobody knows shows %r" % h)
            elif h is None:
                bad("hovering an option shows nothing")
            else:
                t = ts[k["hover"]["by"] - 1]
                e = shows(h, k["hover"]["show"], t, {"missing", "type"} if k["known"][k["hover"]["by"] - 1]["type"]["name"] == "none" else ())
                if e: bad("hovering an option %s: %r" % (e, h))
            want = [("file:///opt/%s/%d/%d" % (roles[d["by"] - 1], i, d["at"]), d["at"] - 1 + i, 2) for d in k["defs"]]
            got = [x for x in located(rs[3 * i + 1]) if x[0] != u]
            if sorted(got) != sorted(want): bad("definition of an option is %s instead of %s" % (got, want))
            its = (rs[3 * i + 2].get("result") or {}).get("items", [])
            # an item is called by more than its name only to tell it from another
            for r in roles:
                own = [x for x in its if x.get("detail", "").startswith(r)]
                if len(own) == 1 and own[0]["label"] != name(i): bad("completion of an option calls the item of %s %r" % (r, own[0]["label"]))
            left = list(its)
            for it in k["items"]:
                t, o = ts[it["by"] - 1], it["item"]
                def fits(x):
                    if not (x.get("filterText") or x["label"]).startswith(name(i)) or not x["label"].startswith(name(i)): return False
                    det = x.get("detail", "")
                    ok = {"missing", "type"} if k["known"][it["by"] - 1]["type"]["name"] == "none" else set()
                    if not det.startswith(t["origin"]) or shows(det[len(t["origin"]):], o["detail"], t, ok): return False
                    if shows((x.get("documentation") or {}).get("value", ""), o["doc"], t): return False
                    ins = x.get("insertText", "")
                    return (o["value"] == "none" or t[o["value"]] in ins) and (x.get("textEdit") or {}).get("newText", ins) == ins
                m = [x for x in left if fits(x)]
                if not m: bad("completion of an option lacks %s of %s: %s" % (o, t["origin"], json.dumps(its, ensure_ascii=False))); break
                left.remove(m[0])
            else:
                if left: bad("completion of an option offers %s besides" % json.dumps(left, ensure_ascii=False))
            if len({x["label"] for x in its}) < len(its) and len({k2["by"] for k2 in k["items"]}) == 1: bad("completion of an option offers the same label twice: %s" % json.dumps(its, ensure_ascii=False))
        ws.close()
    except (EOFError, TimeoutError) as e:
        ws.s.p.kill(); ws.s.p.wait()
        c.violation("showing options: the server %s" % ("dies" if isinstance(e, EOFError) else "does not answer"), {}, sig="options")

def run(c):
    exe = c.build("nixd")
    rnd = random.Random(c.seed)
    inv = ["AllShown", "FirstKnows", "Declared", "Offered"]
    cs = {}
    for kind, n in (("package", c.pick(1600, 12000)), ("option", c.pick(1600, 10**6))):
        r = c.tlc("Answers", dict(Kind='"%s"' % kind, Omit='"nothing"'), invariants=inv + ["Emit"], name=kind)
        ks = r.cases
        # every value of every field, and pairs of them
        cs[kind] = ks if len(ks) <= n else rnd.sample(ks, n)
        if kind == "package":   # unknown ones in between
            nobody = [k for k in ks if k["known"][0]["name"] == "unknown"]
            cs[kind] = [y for i, x in enumerate(cs[kind]) for y in ([x] + nobody if i % 9 == 4 else [x])]
    for kind, what in (("option", "askOn"), ("option", "declareOnce"), ("package", "fallBack")):
        r = c.tlc("Answers", dict(Kind='"%s"' % kind, Omit='"%s"' % what), invariants=inv, name=what, may_fail=True)
        if not r.violated: raise Inconclusive("the model does not need %s" % what)
    jobs = [(packages, cs["package"][a:a + 400]) for a in range(0, len(cs["package"]), 400)] + [(options, cs["option"][a:a + 400]) for a in range(0, len(cs["option"]), 400)]
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(f, c, exe, ks, random.Random(c.seed * 1000 + n)) for n, (f, ks) in enumerate(jobs)]: f.result()
    c.sample({"known": cs["package"][0]["known"], "shown": cs["package"][0]["hover"]["show"]})

if __name__ == "__main__":
    main(run, "C26")
