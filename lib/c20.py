"""C20: completion offers exactly the names in scope that match."""
from common import *
from lspbatch import *
from c07 import pieces
from scope import programs, Prog, S
import copy, random, shutil, sys, tempfile
sys.path.insert(0, os.path.join(VERIF, "harness"))
import worker_names as W

FAKE = os.path.join(VERIF, "harness", "fake_worker.py")
GLOBALS = ["abort", "baseNameOf", "map", "mapAttrs", "toString", "throw", "removeAttrs", "import"]

# -- names of scopes ---------------------------------------------------------
def scopes(c, exe, cases, roots, rnd):
    docs = []
    for k in cases:
        p = Prog(k, rnd)
        qs = [v for v in k["vars"] if v["role"] == "v"]
        docs.append(Doc(p.text, [("textDocument/completion", {"position": pos(p.text, p.off[v["id"]] + rnd.choice([0, 1, len(v["n"])]))}) for v in qs], tag=(p, qs)))
    for d in ask(exe, docs):
        p, qs = d.tag
        c.validated += 1
        if d.dead: c.violation("completing in %r: %s" % (d.text, d.dead), {"text": d.text}); continue
        for v, r in zip(qs, d.replies):
            r = r.get("result") or {"items": [], "isIncomplete": False}
            o = {n: "bound" for n in v["o"]["bound"]}
            o.update({n: "root" for n in v["o"]["root"]})
            labels = [i["label"] for i in r["items"]]
            bad = []
            full = len(o) > 30
            if len(labels) > 30: bad.append("offers %d items" % len(labels))
            if sorted(set(labels)) != sorted(labels): bad.append("offers twice: %s" % sorted({x for x in labels if labels.count(x) > 1}))
            if set(labels) - set(o): bad.append("offers %s, not visible names that match" % sorted(set(labels) - set(o)))
            if not full and set(o) - set(labels): bad.append("does not offer %s" % sorted(set(o) - set(labels)))
            if bool(r.get("isIncomplete")) != full: bad.append("isIncomplete is %s with %d of %d names" % (r.get("isIncomplete"), len(labels), len(o)))
            for i in r["items"]:
                if o.get(i["label"]) == "root" and i.get("kind") == 6 or o.get(i["label"]) == "bound" and i.get("kind") == 14: bad.append("offers %s as another kind of name" % i["label"])
                t = (i.get("textEdit") or {}).get("newText") or i.get("insertText") or i["label"]
                if t != i["label"] or i.get("insertTextFormat", 1) == 2: bad.append("inserts %r for %s" % (t, i["label"]))
                x = i.get("textEdit")
                if x and rng(d.text, x["range"]) != (p.off[v["id"]], p.off[v["id"]] + len(v["n"])): bad.append("replaces %s" % x)
            for b in bad[:1]: c.violation("%r: completion at %d (%s) %s" % (d.text, p.off[v["id"]], v["n"], b), {"text": d.text, "at": p.off[v["id"]], "offered": labels, "expected": o}, sig=d.text)
            if len(o) > 3: c.sample({"text": d.text, "at": p.off[v["id"]], "names": sorted(o)[:12]}, 4)

# -- names that workers answer -----------------------------------------------
def text(k):
    """document and offsets of what is typed"""
    m = "m_k" + "".join(k["fields"])
    w = k["w"]
    if w == "var":
        t = "with pkgs.%s; %szz" % (m, "let %s in " % " ".join("zz%02d = 1;" % i for i in range(k["scoped"])) if k["scoped"] else "")
        return t, len(t) - 2, len(t), "zz"
    if w == "select": t = "pkgs.%s.zz" % m; return t, len(t) - 2, len(t), "zz"
    if w == "dot": t = "pkgs.%s." % m; return t, len(t), len(t), ""
    if w == "option": t = "{ %s.zz = 1; }" % m; return t, t.index("zz"), t.index("zz") + 2, "zz"
    t = "{ %s = {  }; }" % m
    return t, t.index("{  }") + 2, t.index("{  }") + 2, ""

def field(k, i, n, prefix):
    """label, name, assigned value or None for a set"""
    f = k["fields"][i]
    nm = W.name(f, i, prefix)
    if k["w"] not in ("option", "hole") or f in "aAr": return nm, nm, None
    e, d = W.values(f, i)
    if f in "bB": return nm + (" (example)" if n == 1 else " (default)"), nm, (e, d)[n - 1]
    return nm, nm, e if e is not None else d if d is not None else ""

def lists(c, exe, cases, snippets, name):
    docs = []
    for k in cases:
        t, b, e, pre = text(k)
        docs.append(Doc(t, [("textDocument/completion", {"position": pos(t, e)})], tag=(k, b, e, pre)))
    init = copy.deepcopy(INIT)
    init["capabilities"]["textDocument"]["completion"] = {"completionItem": {"snippetSupport": snippets}}
    ask(exe, docs, args=["--nixpkgs-expr=NIXPKGS", "--nixos-options-expr=NIXOS"], env={"NIXD_ATTRSET_EVAL": FAKE, "VERIF_ROLES": "NIXPKGS,NIXOS"}, init=init)
    recs, todo = [], []
    for d in docs:
        k, b, e, pre = d.tag
        c.validated += 1
        if d.dead: c.violation("completing in %r: %s" % (d.text, d.dead), {"text": d.text}); continue
        r = d.replies[0].get("result") or {"items": [], "isIncomplete": False}
        want = {}
        for src, i, n in k["all"]: 
            if src == "scope": want["zz%02d" % (i - 1)] = ("zz%02d" % (i - 1),) * 2 + (None,)
            else: want[field(k, i - 1, n, pre)[0]] = field(k, i - 1, n, pre)
        labels = [i["label"] for i in r["items"]]
        bad = []
        if len(labels) != len(k["items"]): bad.append("offers %d items, not %d" % (len(labels), len(k["items"])))
        if len(set(labels)) != len(labels): bad.append("offers twice: %s" % sorted({x for x in labels if labels.count(x) > 1}))
        if set(labels) - set(want): bad.append("offers %s" % sorted(set(labels) - set(want)))
        if not k["inc"] and set(want) - set(labels): bad.append("does not offer %s" % sorted(set(want) - set(labels)))
        if bool(r.get("isIncomplete")) != k["inc"]: bad.append("isIncomplete is %s where %d of %d are offered" % (r.get("isIncomplete"), len(labels), len(want)))
        for i in r["items"]:
            if i["label"] not in want: continue
            _, nm, v = want[i["label"]]
            x = i.get("textEdit")
            if x and rng(d.text, x["range"]) != (b, e): bad.append("replaces %s, not what is typed" % x["range"])
            if not x and pre and (i.get("insertText") or i["label"]) != i["label"]: bad.append("does not say what %r replaces" % i["label"])
            if not (i.get("filterText") or i["label"]).startswith(pre): bad.append("filters %r by %r" % (i["label"], i.get("filterText")))
            recs.append({"snippet": i.get("insertTextFormat", 1) == 2, "t": list(x["newText"] if x else i.get("insertText") or i["label"]), "name": list(nm), "assign": v is not None, "value": list(v or "")})
            todo.append((d, i, nm, v))
            if i.get("insertTextFormat", 1) == 2 and not snippets: bad.append("sends a snippet")
        for x in bad[:1]: c.violation("%r: completion at %d %s" % (d.text, e, x), {"text": d.text, "at": e, "snippets": snippets, "offered": labels, "expected": sorted(want)}, sig=x[:20] + d.text)
    if not recs: raise Inconclusive("nothing was offered")
    f = os.path.join(c.run, name + ".ndjson")
    with open(f, "w") as o:
        for r in recs: o.write(enc(json.dumps(r, ensure_ascii=False)) + "\n")
    L = "abcdefghijklmnopqrstuvwxyz"
    tl = c.tlc("CompleteText", dict(Itps=pieces([["$", "{", "x", "}"]]), Letters=S(L + L.upper()), Digits=S("0123456789"),
                                    Keywords=pieces([list(x) for x in ("if", "then", "else", "let", "in", "with", "rec", "inherit", "assert")])),
               invariants=["Check"], name=name, env={"RECORDS": f}, post="All")
    for x in tl.cases:
        d, i, nm, v = todo[x["l"] - 1]
        c.violation("%r: the completion %r inserts %r, which does not say %r%s" % (d.text, i["label"], "".join(x["got"]), nm, " = " + v if v is not None else ""), {"text": d.text, "item": i}, sig=d.text)
    c.extra["inserted texts"] = c.extra.get("inserted texts", 0) + len(recs)
    c.sample({"text": todo[-1][0].text, "inserts": todo[-1][1].get("textEdit") or todo[-1][1].get("insertText"), "for": todo[-1][2]}, 10)

def run(c):
    exe, = c.build("nixd"),
    rnd = random.Random(c.seed)
    # which names are global is taken from what the server offers in an empty scope
    g = ask(exe, [Doc(x, [("textDocument/completion", {"position": pos(x, 1)})]) for x in "abcdefghijklmnopqrstuvwxyz_"])
    roots = sorted({i["label"] for d in g if d.replies[0] for i in (d.replies[0].get("result") or {"items": []})["items"]})
    c.extra["global names"] = roots
    if any(x.startswith("__") for x in roots) or not {"map", "builtins", "true"} <= set(roots): c.violation("the global names offered are %s" % roots, {"roots": roots})
    con = dict(Roots=S(roots), Globals=S([r for r in roots if r not in ("true", "false", "null", "builtins")]), Consts=S(["true", "false", "null"]))
    def go(name, n, **kw):
        scopes(c, exe, programs(c, name, spec="Complete", emit="EmitC", limit=n, rnd=rnd, **dict(con, **kw)), roots, rnd)
    go("small", c.pick(600, 20000), Budget=1, DefNames=S(["a", "ab", "__a"]), VarNames=S(["a", "b", "_"]), Forms=S(["let", "with", "fn", "formals", "at", "rec", "set", "oldlet", "select", "has", "paren", "str"]))
    go("shadow", c.pick(600, 20000), Budget=c.pick(2, 3), MaxBinds=1, DefNames=S(["a", "ab"]), VarNames=S("a"), Forms=S(["let", "with", "fn", "rec", "formals"]), BindForms=S(["inherit", "from"]))
    go("global", c.pick(200, 4000), Budget=2, MaxBinds=1, DefNames=S(["map", "ma", "true"]), VarNames=S(["ma", "map", "t", "b", "__"]), Forms=S(["let", "rec", "fn", "with"]), BindForms=S(["path"]))
    go("quoted", c.pick(200, 4000), Budget=1, MaxBinds=3, DefNames=S(['\\"a b\\"', "a", "a-b", "a'"]), VarNames=S("a"), Forms=S(["let", "rec", "set"]), BindForms=S([]))
    go("deep", c.pick(900, 40000), Budget=7, MaxBinds=3, DefNames=S(["a", "ab", "abc", "b", "_a", "__a", "map", "bc"]), VarNames=S(["a", "ab", "b", "_", "m"]), sim=c.pick(200, 40000), EmitAll="FALSE")
    go("many", c.pick(20, 400), Budget=4, MaxBinds=12, sim=c.pick(20, 2000), EmitAll="FALSE", DefNames=S(["a%d" % i for i in range(30)] + ["b"]), VarNames=S(["a", "b"]), Forms=S(["let", "rec", "formals"]), BindForms=S(["path"]))
    def cases(name, **kw):
        d = dict(Limit=30, Scoped="{0, 1}", Lengths="{0}", Fill='""', Free=2)
        d.update(kw)
        return c.tlc("CompleteList", d, invariants=["Sound", "Emit"], name=name).cases
    K = ["p", "q", "x", "o", "a", "n", "e", "d", "b", "s", "m", "A", "E", "B"]
    every = S(["var", "select", "option", "dot", "hole"])
    cs = cases("kinds", Kinds=S(K), Where=every, Free=c.pick(2, 3))
    cs += cases("limit", Kinds=S(["p", "q", "x", "o", "b", "n"]), Where=every, Scoped="{0, 2, 29, 30, 31}", Lengths="{26, 28, 29, 30}", Free=c.pick(2, 3))
    cs += cases("quote", Kinds=S(["q", "A", "E", "B"]), Where=every, Lengths="{%s}" % ", ".join(map(str, range(1, 18))), Scoped="{0}", Free=1)
    cs += cases("words", Kinds=S(["r", "z"]), Where=S(["dot", "hole"]), Fill='"r"', Lengths="{%s}" % ", ".join(map(str, range(18))), Free=1)
    cs = [k for k in cs if not (k["w"] == "dot" and "x" in k["fields"])]
    n = c.pick(1500, 40000)
    if len(cs) > n: cs = rnd.sample(cs, n)
    lists(c, exe, cs, True, "snippets")
    lists(c, exe, rnd.sample(cs, min(len(cs), c.pick(500, 20000))), False, "plain")

if __name__ == "__main__":
    main(run, "C20")
