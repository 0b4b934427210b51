"""C09: function parameter lists are checked completely."""
from common import *
import random
NAMES = {"missing-comma": "sema-formal-missing-comma", "extra-ellipsis": "sema-formal-extra-ellipsis", "misplaced-ellipsis": "sema-misplaced-ellipsis",
         "empty": "sema-empty-formal", "dup": "sema-dup-formal", "dup-arg": "sema-dup-formal-arg"}
MINE = set(NAMES.values())

def render(k, sep):
    out, pos = "", {}
    at = k["at"]
    if at["side"] in ("pre", "both"):
        pos[0] = len(out)
        out += at["n"] + sep + "@" + sep
    out += "{" + sep
    for i, t in enumerate(k["toks"], 1):
        pos[i] = len(out)
        out += {"comma": ",", "ell": "..."}.get(t["t"]) or t["n"] + (sep + "?" + sep + "1" if t["d"] else "")
        out += sep or (" " if t["t"] == "id" else "")
    out += "}" + sep
    if at["side"] in ("post", "both"):
        out += "@" + sep
        if at["side"] == "post": pos[0] = len(out)
        out += at["n"]
    return out + sep + ": 1", pos

def formals(n):
    if n is None: return None
    if n[0] == "Formals": return n
    for ch in n[3]:
        r = formals(ch)
        if r: return r

def replay(c, exe, cases, rnd):
    todo = []
    for k in cases:
        for sep in ([" "] if rnd.random() < .8 else [" ", "", "\n", " # c\n"]):
            text, pos = render(k, sep)
            todo.append((k, text, pos))
    res = batch(exe, [{"s": hx(t), "m": "dt"} for _, t, _ in todo])
    for (k, text, pos), r in zip(todo, res):
        if "skipped" in r: continue
        c.validated += 1
        if "crash" in r:
            c.violation("parsing %r died: %s" % (text, r["crash"]), {"text": text}, sig=text); continue
        errs = [d["n"] for d in r["d"] if d["sev"] <= 1]
        if k["ok"] == bool(errs):
            c.violation("%r is %s for Nix, reported: %s" % (text, "valid" if k["ok"] else "wrong", errs), {"text": text, "diags": errs}, sig=text); continue
        if not k["fn"] or k["at"]["side"] == "both": continue
        got = sorted([d["n"], d["r"][0], d["notes"][0][1][0] if d["notes"] else None] for d in r["d"] if d["n"] in MINE)
        want = sorted([NAMES[a], pos[b], pos[e] if e else None] for a, b, e in k["rep"])
        if got != want:
            c.violation("%r is wrong in %s, reported: %s" % (text, want, got), {"text": text, "got": got, "want": want}, sig=text); continue
        extra = [e for e in errs if e not in MINE]
        if extra:
            c.violation("%r: unexpected %s" % (text, extra), {"text": text}, sig=text); continue
        f = formals(r["t"])
        b = sorted(x[1] for x in f[2]) if f else None
        if b != sorted(pos[i] for i in k["bound"]):
            c.violation("%r binds the names at %s, recorded: %s" % (text, sorted(pos[i] for i in k["bound"]), b), {"text": text}, sig=text)
        if len(want) > 1: c.sample({"text": text, "reports": want})

def S(xs): return "{" + ", ".join('"%s"' % x for x in xs) + "}"
ALL = dict(Defs="BOOLEAN", MaxRep=99)
def run(c):
    exe = c.build("nixf_h")
    rnd = random.Random(c.seed)
    inv = ["Agree", "Emit"]
    r = c.tlc("Formals", dict(Ids=S("ab"), MaxLen=c.pick(4, 5), MinLen=0, AtNames=S("ax"), **ALL), invariants=inv, name="all")
    replay(c, exe, r.cases, rnd)
    r = c.tlc("Formals", dict(Ids=S("a"), MaxLen=c.pick(6, 7), MinLen=5, AtNames=S("a"), **ALL), invariants=inv, name="longer")
    replay(c, exe, rnd.sample(r.cases, min(len(r.cases), c.pick(15000, 10**6))), rnd)
    r = c.tlc("Formals", dict(Ids=S("abc"), MaxLen=12, MinLen=8, AtNames=S("ax"), **ALL), invariants=inv, name="long", simulate=c.pick(150, 10000), depth=14, workers=1)
    replay(c, exe, rnd.sample(r.cases, min(len(r.cases), c.pick(4000, 10**6))), rnd)
    r = c.tlc("Formals", dict(Ids=S("abcd"), MaxLen=c.pick(8, 11), MinLen=6, AtNames=S("a"), Defs="{FALSE}", MaxRep=c.pick(1, 2)), invariants=inv, constraints=["Few"], name="nearly")
    replay(c, exe, rnd.sample(r.cases, min(len(r.cases), c.pick(6000, 10**6))), rnd)

if __name__ == "__main__":
    main(run, "C09")
