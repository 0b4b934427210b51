"""C08: attribute sets merge and report duplicates as Nix does."""
from common import *
import random

def nm(x):
    return {"id": x["n"], "str": '"%s"' % x["n"], "itp": '${"%s"}' % x["n"], "dyn": "${%s}" % x["n"]}[x["st"]]

def render(prog, head, tail):
    """Text and the offsets of names and values by their ids."""
    out, pos, val = head, {}, {}
    stack = []
    for i, it in enumerate(prog, 1):
        if it["t"] == "close":
            out += stack.pop() + "; "
            continue
        if it["t"] == "inherit":
            out += "inherit " + ("(y) " if it["from"] else "")
            for j, x in enumerate(it["names"], 1):
                pos[100 * i + j] = len(out)
                out += nm(x) + " "
            out += "; "
            continue
        for j, x in enumerate(it["p"], 1):
            if j > 1: out += "."
            pos[100 * i + j] = len(out)
            out += nm(x)
        out += " = "
        val[i] = len(out)
        if it["t"] == "leaf":
            out += "%d; " % i
        else:
            out += ("(" if it["par"] else "") + ("rec " if it["rec"] else "") + "{ "
            stack.append("})" if it["par"] else "}")
    return out + tail, pos, val

def want(s, pos, val):
    def attr(a):
        o = {"k": a["k"], "key": pos[a["key"]]}
        if a["v"]["t"] == "set": o["a"] = want(a["v"]["s"], pos, val)
        elif a["k"] == "p": o["v"] = val[a["v"]["id"]]
        return o
    return {"rec": s["rec"], "st": {k: attr(v) for k, v in (s["st"] or {}).items()}, "dy": [attr(a) for a in s["dy"]]}

def got(s):
    def attr(a):
        o = {"k": a["k"], "key": a["key"][0]}
        if a.get("a"): o["a"] = got(a["a"])
        elif a["k"] == "p": o["v"] = a["v"][1]
        return o
    return {"rec": s["rec"], "st": {unhx(k): attr(v) for k, v in s["st"].items()}, "dy": [attr(a) for a in s["dy"]]}

HEADS = [("{ ", "}", False), ("rec { ", "}", True), ("let ", "in 1", True)]
def replay(c, exe, cases, rnd):
    todo, reqs = [], []
    for k in cases:
        for h, t, rec in HEADS:
            if h != "{ " and rnd.random() < .7: continue
            text, pos, val = render(k["p"], h, t)
            todo.append((k, text, pos, val, rec))
            reqs.append({"s": hx(text), "m": "ad"})
    for (k, text, pos, val, rec), r in zip(todo, batch(exe, reqs)):
        if "skipped" in r: continue
        c.validated += 1
        if "crash" in r:
            c.violation("parsing %r died: %s" % (text, r["crash"]), {"text": text}, sig=text); continue
        dups = sorted((d["r"][0], d["notes"][0][1][0], unhx(d["args"][0])) for d in r["d"] if d["n"] == "sema-duplicated-attrname")
        byid = {100 * i + j: x["n"] for i, it in enumerate(k["p"], 1) for j, x in enumerate(it.get("p") or it.get("names") or [], 1)}
        wdups = sorted((pos[a], pos[b], byid[a]) for a, b in k["d"])
        if dups != wdups:
            c.violation("duplicates of %r reported as %s, Nix finds %s (later, earlier, name)" % (text, dups, wdups), {"text": text, "got": dups, "want": wdups}, sig=text); continue
        dyn = sorted(d["r"][0] for d in r["d"] if d["n"] == "sema-dynamic-inherit")
        if dyn != sorted(pos[b] for b in k["b"]):
            c.violation("dynamic inherits of %r reported at %s, are at %s" % (text, dyn, sorted(pos[b] for b in k["b"])), {"text": text}, sig=text); continue
        nrec = sum(d["n"] == "merge-diff-rec" for d in r["d"])
        if nrec != k["r"]:
            c.violation("%r: %d merges of differently recursive sets reported, there are %d" % (text, nrec, k["r"]), {"text": text}, sig=text); continue
        other = [d["n"] for d in r["d"] if d["n"] not in ("sema-duplicated-attrname", "sema-dynamic-inherit", "merge-diff-rec", "parse-redundant-paren")]
        if other:
            c.violation("%r: unexpected %s" % (text, other), {"text": text}, sig=text); continue
        if not k["p"]: continue
        root = min(r["a"], key=lambda a: a["at"])
        g, w = got(root), want(k["s"], pos, val)
        w["rec"] = rec
        if g != w:
            c.violation("%r denotes %s for Nix, nixd computes %s" % (text, json.dumps(w), json.dumps(g)), {"text": text, "got": g, "want": w}, sig=text)
        if len(k["p"]) > 2: c.sample({"text": text, "dups": wdups})

def S(xs): return "{" + ", ".join('"%s"' % x for x in xs) + "}"
def run(c):
    exe = c.build("nixf_h")
    rnd = random.Random(c.seed)
    inv = ["Sound", "Complete", "Emit"]
    base = dict(Names=S("ab"), Styles=S(["id"]), MaxPath=2, MaxItems=3, MinItems=0, MaxDepth=2, Recs=S([""]), Parens="FALSE", Inherits="TRUE")
    def go(name, sim=None, limit=None, **kw):
        r = c.tlc("Attrs", dict(base, **kw), invariants=inv, name=name, simulate=sim, depth=kw.get("MaxItems", 3) * 2 + 2, workers=1 if sim else 8)
        cs = list({json.dumps(k, sort_keys=True): k for k in r.cases}.values())
        if limit and len(cs) > limit: cs = rnd.sample(cs, limit)
        replay(c, exe, cs, rnd)
    go("three", limit=c.pick(12000, None))
    go("nested", Inherits="FALSE", MaxItems=c.pick(6, 8), MaxPath=1, MaxDepth=c.pick(2, 3), Recs=S(["", "rec"]), limit=c.pick(12000, 400000))
    go("styles", Styles=S(["id", "str", "itp", "dyn"]), Names=S("a"), MaxItems=2, Recs=S(["", "rec"]), Parens="TRUE", limit=c.pick(12000, None))
    go("paths", Inherits="FALSE", MaxPath=3, MaxItems=c.pick(2, 3), MaxDepth=1, Parens="TRUE", limit=c.pick(6000, 400000))
    go("merge", Styles=S(["id", "dyn"]), Names=S("a"), MaxPath=1, MaxItems=c.pick(6, 8), MinItems=6, MaxDepth=1, Recs=S(["", "rec"]), Inherits=c.pick("FALSE", "TRUE"), limit=c.pick(6000, 200000))
    go("mergelong", sim=c.pick(150, 3000), Styles=S(["id", "dyn"]), Names=S("ab"), MaxPath=2, MaxItems=14, MinItems=8, MaxDepth=2, limit=c.pick(5000, 200000))
    go("long", sim=c.pick(20, 3000), MaxItems=12, MinItems=6, MaxDepth=3, MaxPath=3, Names=S("abc"), Styles=S(["id", "str", "dyn"]), Recs=S(["", "rec"]), Parens="TRUE", limit=c.pick(8000, 200000))

if __name__ == "__main__":
    main(run, "C08")
