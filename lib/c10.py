"""C10: every variable resolves to the binding Nix would use.  (C11 shares the run.)"""
from common import *
from scope import *

SRC = {"let": 1, "arg": 2, "formal": 3, "atarg": 4, "formalarg": 5, "rec": 6}
REP = {"undefined": "sema-undefined-variable", "needs-prefix": "sema-primop-needs-prefix", "unused-let": "sema-unused-def-let", "unused-formal": "sema-unused-def-lambda-noarg-formal",
       "unused-formalarg": "sema-unused-def-lambda-witharg-formal", "unused-atarg": "sema-unused-def-lambda-witharg-arg", "extra-rec": "sema-extra-rec", "extra-with": "sema-extra-with",
       "removable-prefix": "sema-primop-removed-prefix", "unknown": "sema-primop-unknown", "overridden": "sema-primop-overridden", "constant": "sema-constant-overridden"}

def resolution(c, p, r):
    o = p.off
    got = {v["at"]: [v["k"], v["def"], v["ws"]] for v in r["v"]}
    want = {}
    for v in p.k["vars"]:
        x = v["r"]
        want[o[v["id"]]] = {"def": ["def", o.get(x["id"]), []], "builtin": ["def", None, []], "undef": ["undef", None, []],
                            "with": ["with", o.get(x["id"]), [o[w] for w in x["ws"]]]}[x["k"]]
    if got != want:
        bad = [k for k in set(got) | set(want) if got.get(k) != want.get(k)]
        b = min(bad)
        return "in %r the variable at %d resolves to %s, found %s" % (p.text, b, want.get(b), got.get(b))
    if any(v.get("used", 1) != 1 for v in r["v"]):
        return "in %r a variable is recorded several times or never as a use of its binding: %s" % (p.text, [v["at"] for v in r["v"] if v.get("used", 1) != 1])
    gd = {d["at"]: [d["src"], d["uses"]] for d in r["defs"] if d["src"] != 0}
    wd = {o[d["id"]]: [SRC[d["k"]], sorted(o[u] for u in d["uses"])] for d in p.k["defs"]}
    if gd != wd:
        return "in %r the uses of bindings are %s, found %s" % (p.text, wd, gd)

def reports(c, p, r):
    want = sorted((REP[k], p.off[i]) for k, i in p.k["rep"])
    got = sorted((d["n"], d["r"][0]) for d in r["vd"])
    if got != want:
        miss = [x for x in want if x not in got]
        extra = list(got)
        for x in want:
            if x in extra: extra.remove(x)
        return "%r: not reported: %s; wrongly reported: %s" % (p.text, miss, extra)

def replay(c, exe, cases, rnd, judge):
    ps = [Prog(k, rnd if rnd.random() < .3 else None) for k in cases]
    res = batch(exe, [{"s": hx(p.text), "m": "vd"} for p in ps])
    for p, r in zip(ps, res):
        if "skipped" in r: continue
        c.validated += 1
        if "crash" in r:
            c.violation("analysing %r died: %s" % (p.text, r["crash"]), {"text": p.text}, sig=p.text); continue
        if any(d["sev"] <= 1 and not d["n"].startswith("deprecated") for d in r["d"]):
            c.violation("%r: unexpected %s" % (p.text, [d["n"] for d in r["d"]]), {"text": p.text}, sig=p.text); continue
        bad = judge(c, p, r)
        if bad:
            c.violation(bad, {"text": p.text, "case": p.k, "got": r}, sig=p.text)
        if len(p.k["vars"]) > 2: c.sample({"text": p.text, "resolution": [[v["n"], v["r"]] for v in p.k["vars"]], "reports": p.k["rep"]}, 4)

def run(c, judge=resolution):
    exe = c.build("nixf_h")
    rnd = random.Random(c.seed)
    def go(name, limit=None, **kw):
        cs = programs(c, name, rnd=rnd, limit=limit, **kw)
        replay(c, exe, cs, rnd, judge)
    go("small", Budget=c.pick(1, 2), MaxBinds=2, limit=c.pick(10000, 400000))
    go("scopes", Budget=c.pick(3, 4), DefNames=S("a"), VarNames=S("a"), MaxBinds=1, Forms=S(["let", "with", "fn", "formals", "at", "rec", "set"]), BindForms=S(["inherit", "from"]), limit=c.pick(15000, 400000))
    BI = dict(DefNames=S(["a", "map", "builtins", "true"]), VarNames=S(["map", "add", "builtins", "true", "fetchFinalTree"]), AttrNames=S(["map", "add", "nope", "true", "builtins", "currentTime"]),
              Prefixed=S(["add"]), Consts=S(["true", "currentTime"]))
    go("builtins", **dict(BI, Budget=2, MaxBinds=1, Forms=S(["let", "with", "fn", "formals", "rec", "builtins"]), BindForms=S(["inherit", "builtins"]), limit=c.pick(10000, 400000)))
    go("deep", sim=c.pick(250, 20000), Budget=8, MaxBinds=3, DefNames=S("abcd"), VarNames=S("abcde"), AttrNames=S("ab"), EmitAll="FALSE", limit=c.pick(10000, 400000))
    go("deepb", sim=c.pick(150, 5000), **dict(BI, Budget=6, MaxBinds=3, Forms=S(FORMS + ["builtins"]), BindForms=S(BINDS + ["builtins"]), EmitAll="FALSE", limit=c.pick(5000, 200000)))

if __name__ == "__main__":
    main(run, "C10")
