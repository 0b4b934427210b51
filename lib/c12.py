"""C12: definition, references, highlight and rename agree with scoping."""
from common import *
from scope import *
from lspbatch import *

def result(r):
    """None for an error reply"""
    return None if r is None or "error" in r else r.get("result")

def doc_of(p, rnd):
    t = p.text
    reqs, meta = [], []
    for o in p.k["occ"]:
        at = {"position": pos(t, p.off[o["id"]] + p.inside)}
        for m, par in [("definition", {}), ("references", {"context": {"includeDeclaration": False}}), ("documentHighlight", {}), ("rename", {"newName": "fresh"}), ("prepareRename", {})]:
            if m == "definition" and o["t"] not in "vi": continue
            reqs.append(("textDocument/" + m, dict(at, **par)))
            meta.append((m, o))
    if rnd and p.k["occ"]:
        o = rnd.choice(p.k["occ"])
        reqs.append(("textDocument/rename", {"position": pos(t, p.off[o["id"]]), "newName": rnd.choice(["", "1a", "a b", "let", "inherit", "a.b", "${a}", "a;b", "if", "\n", "'a", "-a"])}))
        meta.append(("badname", o))
    d = Doc(t, reqs, tag=(p, meta))
    return d

def locs(t, res):
    if res is None: return []
    if isinstance(res, dict): res = [res]
    return [rng(t, x["range"]) for x in res]

def judge(c, d):
    p, meta = d.tag
    t = p.text
    defs = {x["id"]: x for x in p.k["defs"]}
    span = lambda i: (p.off[i], p.off[i] + len(p.k["out"][i - 1]["s"]))
    def bad(what, o, got, want):
        c.violation("in %r at %d (%s): %s %s, expected %s" % (t, p.off[o["id"]], p.k["out"][o["id"] - 1]["s"], what, got, want),
                    {"text": t, "offset": p.off[o["id"]], "got": got, "want": want}, sig="%s@%d" % (t, p.off[o["id"]]))
    for (m, o), r in zip(meta, d.replies):
        f = defs.get(o["def"])
        res = result(r)
        if m == "definition":
            got = sorted(locs(t, res)); want = [span(f["id"])] if f else None
            # a name from with may lead to the with; undefined names and builtins lead nowhere
            if f and got != want: bad("definition leads to", o, got, want)
        elif m == "references":
            got = sorted(locs(t, res)); want = sorted(span(u) for u in f["uses"]) if f else None
            if f and got != want: bad("references are", o, got, want)
            if not f and o["t"] == "a" and got: bad("references of an attribute name", o, got, [])
        elif m == "documentHighlight":
            if f:
                rd = sorted(rng(t, x["range"]) for x in res or [] if x.get("kind") != 3)
                wr = sorted(rng(t, x["range"]) for x in res or [] if x.get("kind") == 3)
                want = sorted(span(u) for u in f["uses"])
                if rd != want: bad("read highlights are", o, rd, want)
                if span(f["id"]) not in wr or not set(wr) <= {span(x) for x in f["sites"]}: bad("write highlights are", o, wr, [span(f["id"])])
            elif o["t"] == "a" and res: bad("highlights of an attribute name", o, res, [])
        elif m == "badname":
            if (res or {}).get("changes"): bad("renaming to %r edits" % d.reqs[len(meta) - 1][1]["newName"], o, res, [])
        elif m == "rename":
            ch = (res or {}).get("changes") or {}
            ed = [e for es in ch.values() for e in es]
            if any(u != d.uri for u in ch): bad("rename edits another document", o, list(ch), d.uri)
            if any(e["newText"] != "fresh" for e in ed): bad("rename writes", o, sorted({e["newText"] for e in ed}), "fresh")
            got = sorted(rng(t, e["range"]) for e in ed)
            want = sorted(span(x) for x in f["places"]) if f and f["ok"] else []
            if got != want: bad("rename edits", o, got, want)
        elif m == "prepareRename":
            # offered exactly where rename yields edits
            ok = bool(f and f["ok"])
            if bool(res) != ok: bad("prepareRename answers", o, res, "a range" if ok else "no range")
            elif ok and rng(t, res) != span(o["id"]): bad("prepareRename answers", o, rng(t, res), span(o["id"]))

def run(c):
    exe = c.build("nixd")
    rnd = random.Random(c.seed)
    def go(name, limit=None, **kw):
        seen, ks = set(), []
        def add(k):
            key = " ".join(x["s"] for x in k["out"])
            if key not in seen and any(o["def"] for o in k["occ"]):
                seen.add(key); ks.append(k)
        sim = kw.pop("sim", None)
        c.tlc("Nav", dict(CONSTS, Globals='{"map"}', **kw), invariants=["ResolutionSound", "RenameSound", "RenameMinimal", "EmitNav"], name=name, simulate=sim, depth=150 if sim else None,
              workers=1 if sim else 8, on_case=add, timeout=900)
        if limit and len(ks) > limit: ks = rnd.sample(ks, limit)
        docs = []
        for k in ks:
            p = Prog(k, rnd if rnd.random() < .3 else None)
            p.inside = 0
            docs.append(doc_of(p, rnd))
        ask(exe, docs)
        for d in docs:
            c.validated += len(d.reqs)
            if d.dead: c.violation("%s on %r" % (d.dead, d.text), {"text": d.text}, sig=d.text)
            else: judge(c, d)
            if len(d.reqs) > 10: c.sample({"text": d.text, "bindings": d.tag[0].k["defs"]}, 3)
        c.log(name, len(docs), "programs")
    go("small", Budget=1, MaxBinds=2, VarNames=S(["a", "b", "map"]), limit=c.pick(1500, 100000))
    go("attrs", Budget=2, DefNames=S("a"), VarNames=S("a"), MaxBinds=2, Forms=S(["let", "rec", "has", "select"]), BindForms=S(["path"]), limit=c.pick(2500, 100000))
    go("scopes", Budget=c.pick(3, 4), DefNames=S("a"), VarNames=S("a"), MaxBinds=1, Forms=S(["let", "with", "fn", "formals", "at", "rec", "set", "oldlet"]), BindForms=S(["inherit", "from"]), limit=c.pick(3000, 100000))
    go("deep", sim=c.pick(150, 5000), Budget=8, MaxBinds=3, DefNames=S("abc"), VarNames=S(["a", "b", "c", "d", "map"]), AttrNames=S("ab"), EmitAll="FALSE", limit=c.pick(2000, 50000))

if __name__ == "__main__":
    main(run, "C12")
