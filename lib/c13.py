"""C13: applying a diagnostic's fix cures it and harms nothing else."""
from common import *
from scope import *
from c10 import REP, BINDS, FORMS
import c05, c06, c09

NAME = dict({k: REP[k] for k in REP}, **{"deprecated-let": "deprecated-let"})

def apply(text, fix):
    """text and [(from, to, new)] sorted; None if an edit is outside or two overlap"""
    es = sorted((e[0][0], e[0][1], i, bytes.fromhex(e[1])) for i, e in enumerate(fix[1]))
    o, last = b"", 0
    for a, b, i, n in es:
        if a < last or b < a or b > len(text): return None
        o += text[last:a] + n
        last = b
    return o + text[last:]
def solid(b): return b"".join(b.split())
def word(ch): return ch.isalnum() or ch in "_'-"

class TightProg(Prog):
    """as few blanks as the tokens allow"""
    def __init__(self, k):
        self.k, self.off, out = k, {}, ""
        for i, p in enumerate(k["out"], 1):
            s = p["s"]
            if out and (word(out[-1]) and word(s[0]) or out[-1] == ":" or (out[-1] == "." and s[0] == ".") or s == "1" and out[-1] in ")]}\"" or s[0] == "."
                        and out[-1].isdigit()): out += " "
            elif out and out[-1].isalpha() and s == ":": out += " "
            self.off[i] = len(out)
            out += s
        self.text = out

def names(c, exe, name, rnd, limit=None, sim=None, depth=150, **kw):
    """Fixes of reports on names: what Fix.tla promises is what the code does."""
    seen, cases = set(), []
    def add(k):
        key = " ".join(p["s"] for p in k["out"])
        if key not in seen:
            seen.add(key); cases.append(k)
    c.tlc("Fix", dict(CONSTS, **kw), invariants=["FixSound", "FixShape", "EmitFix"], name=name, simulate=sim, depth=depth if sim else None, workers=1 if sim else 8, on_case=add)
    rich = [k for k in cases if k["fixes"]]
    cases = rich if len(rich) <= (limit or 10**9) else rnd.sample(rich, limit)
    ps = []
    for k in cases:
        x = rnd.random()
        ps.append(TightProg(k) if x < .4 else Prog(k, rnd if x < .6 else None))
    res = batch(exe, [{"s": hx(p.text), "m": "vd"} for p in ps])
    jobs = []
    for p, r in zip(ps, res):
        if "skipped" in r: continue
        c.validated += 1
        if "crash" in r:
            c.violation("analysing %r died: %s" % (p.text, r["crash"]), {"text": p.text}); continue
        if any(d["sev"] <= 1 and not d["n"].startswith("deprecated") for d in r["d"]): continue     # the rendering changed it (C06's matter)
        want = {}
        for f in p.k["fixes"]:
            want[NAME[f["rep"][0]], p.off[f["rep"][1]]] = f
        for d in r["vd"] + r["d"]:
            for fix in d["fixes"]:
                key = (d["n"], d["r"][0])
                t2 = apply(p.text.encode(), fix)
                what = "the fix %r of %s at %d in %r" % (unhx(fix[0]), d["n"], d["r"][0], p.text)
                if t2 is None:
                    c.violation(what + " has edits outside the text or overlapping", {"text": p.text, "fix": fix}); continue
                if d["n"] in NAME.values():
                    if key not in want:
                        c.violation(what + " is offered where no fix is safe: " + repr(t2.decode()), {"text": p.text, "fix": fix}); continue
                    jobs.append((p, d, t2, want[key], what))
    r2 = batch(exe, [{"s": j[2].hex(), "m": "vd"} for j in jobs])
    for (p, d, t2, f, what), r in zip(jobs, r2):
        if "skipped" in r: continue
        c.validated += 1
        why = judge(p, d, t2, f, r)
        if why:
            c.violation("%s yields %r: %s" % (what, t2.decode(), why), {"text": p.text, "after": t2.decode(), "spec": f, "got": r})
        elif len(p.text) > 30: c.sample({"text": p.text, "diagnostic": d["n"], "after": t2.decode()}, 8)
    return len(jobs)

def judge(p, d, t2, f, r):
    if "crash" in r: return "analysing it died: " + r["crash"]
    ser = lambda x: solid((p.k["out"][x["i"] - 1]["s"] if x["i"] else x["s"]).encode())
    exp = b"".join(ser(x) for x in f["seq"])
    if solid(t2) != exp: return "expected %r" % exp.decode()
    bad = [x["n"] for x in r["d"] if x["sev"] <= 1 and not x["n"].startswith("deprecated")]
    if bad: return "it has syntax errors: %s" % bad
    # where the pieces are now: count the characters that are not blank
    at, cum = {}, 0
    for x in f["seq"]:
        if x["i"]: at[x["i"]] = cum
        cum += len(ser(x))
    pos, n = {}, 0
    for i, b in enumerate(t2.decode()):
        if not b.isspace():
            pos[n] = i; n += 1
    at = {k: pos[v] for k, v in at.items()}
    got = {v["at"]: [v["k"], v["def"], v["ws"]] for v in r["v"]}
    want = {}
    for v in f["vars"]:
        x = v["r"]
        want[at[v["id"]]] = {"def": ["def", at.get(x["id"]), []], "builtin": ["def", None, []], "undef": ["undef", None, []],
                             "with": ["with", at.get(x["id"]), [at[w] for w in x["ws"]]]}[x["k"]]
    extra = set(got) - set(want)
    if d["n"] == REP["needs-prefix"]:        # the new variable `builtins`
        extra = {o for o in extra if not (t2[o:o + 9] == b"builtins." and got[o] == ["def", None, []])}
    bad = [o for o in want if got.get(o) != want[o]]
    if bad or extra: return "the variable at %s resolves to %s instead of %s" % ((bad + list(extra))[0], got.get((bad + list(extra))[0]), want.get((bad + list(extra))[0]))
    here = [x for x in r["vd"] + r["d"] if x["n"] == d["n"] and x["args"] == d["args"]]
    i = f["rep"][1]
    if i in at and any(x["r"][0] == at[i] for x in here): return "%s is still reported" % d["n"]

def titles(d): return [(unhx(f[0]), f) for f in d["fixes"]]
def errors(r): return [x["n"] for x in r["d"] if x["sev"] <= 1 and not x["n"].startswith("deprecated")]

def repairs(c, exe, name, rnd, limit, **kw):
    """Single faults with a forced repair: the fix gives the sentence back."""
    seen, cases = set(), []
    def add(k):
        key = tuple(k["bad"])
        if key not in seen:
            seen.add(key); cases.append(k)
    com = dict(Start='"E"', Omit='{"oldlet_operand"}')
    sim = kw.pop("sim", None)
    c.tlc("Repair", dict(com, **kw), init="RInit", next="RNext", invariants=["OneFault", "REmit"], name=name, simulate=sim, depth=700 if sim else None, workers=1 if sim else 8, on_case=add)
    per = {}
    for k in cases: per.setdefault((k["kind"], k["fix"]), []).append(k)
    c.extra.setdefault("faults", {})
    todo = []
    for key, ks in per.items():
        ks = rnd.sample(ks, min(len(ks), limit))
        c.extra["faults"]["%s: %s" % key] = c.extra["faults"].get("%s: %s" % key, 0) + len(ks)
        for k in ks:
            r2 = rnd if rnd.random() < .4 else None
            todo.append((k, c06.text_of(k["text"]), c06.text_of(k["bad"], r2)))
    orig = batch(exe, [{"s": hx(t[1]), "m": "td"} for t in todo])
    bad = batch(exe, [{"s": hx(t[2]), "m": "td"} for t in todo])
    jobs = []
    for (k, t0, t1), r0, r1 in zip(todo, orig, bad):
        if "skipped" in r0 or "skipped" in r1: continue
        c.validated += 1
        if "crash" in r1:
            c.violation("parsing %r died: %s" % (t1, r1["crash"]), {"text": t1}); continue
        if errors(r0): continue                        # C06's matter
        n = 0
        # only the first error counts: what follows may be reported because of it
        for d in [d for d in r1["d"] if d["sev"] <= 1 and not d["n"].startswith("deprecated")][:1]:
            for title, fix in titles(d):
                if title != k["fix"]: continue
                n += 1
                t2 = apply(t1.encode(), fix)
                if t2 is None: c.violation("the fix %r of %r has edits outside the text or overlapping" % (title, t1), {"text": t1, "fix": fix})
                else: jobs.append((k, t0, r0, t1, title, t2))
        if n: c.extra["offered"] = c.extra.get("offered", 0) + 1
    res = batch(exe, [{"s": j[5].hex(), "m": "td"} for j in jobs])
    for (k, t0, r0, t1, title, t2), r in zip(jobs, res):
        if "skipped" in r: continue
        c.validated += 1
        if "crash" in r: c.violation("parsing %r died" % t2, {"text": t2.hex()}); continue
        if errors(r):
            c.violation("%r lacks nothing else, but after %r it is %r with %s" % (t1, title, t2.decode(), errors(r)), {"original": t0, "bad": t1, "after": t2.decode()}, sig=t1)
        elif r["t"] is None or c06.norm(c06.sx(r["t"])) != c06.norm(c06.sx(r0["t"])):
            c.violation("%r is %r without %s; after %r it is %r, which means something else" % (t1, t0, k["kind"], title, t2.decode()), {"original": t0, "bad": t1, "after": t2.decode()}, sig=t1)
        elif len(t1) > 30: c.sample({"fault": t1, "fix": title, "after": t2.decode()}, 14)

def flist(text):
    """tokens of a parameter list as Formals.tla has them"""
    out = []
    for m in re.finditer(r"\.\.\.|,|(\w)\s*(\?\s*1)?", text[text.index("{") + 1:text.index("}")]):
        if m[0] == "...": out.append({"t": "ell"})
        elif m[0] == ",": out.append({"t": "comma"})
        else: out.append({"t": "id", "n": m[1], "d": bool(m[2])})
    return out
FIXKIND = {"sema-formal-missing-comma": "missing-comma", "sema-formal-extra-ellipsis": "extra-ellipsis", "sema-misplaced-ellipsis": "misplaced-ellipsis", "sema-empty-formal": "empty"}
def params(c, exe, rnd, **kw):
    """Parameter lists: fixes lead to lists with fewer reports; all lists are TLC's."""
    name = kw.pop("name")
    r = c.tlc("Formals", dict(dict(MinLen=0, AtNames="{}", Defs="BOOLEAN", MaxRep=99), **kw), invariants=["Agree", "Emit"], constraints=["Few"], name=name)
    key = lambda toks: tuple((t["t"], t.get("n"), t.get("d")) for t in toks)
    table = {key(k["toks"]): k for k in r.cases}
    full = max(len(k) for k in table)
    cases = [k for k in r.cases if k["at"]["side"] == "none" and k["fn"] and 0 < len(k["rep"]) <= kw.get("MaxRep", 99) and len(k["toks"]) < full]
    cases = cases if len(cases) < 6000 else rnd.sample(cases, 6000)
    todo = [(k, c09.render(k, " " if rnd.random() < .6 else "")[0]) for k in cases]
    res = batch(exe, [{"s": hx(t), "m": "d"} for _, t in todo])
    for (k, t), r in zip(todo, res):
        if "skipped" in r: continue
        c.validated += 1
        for d in r["d"]:
            for title, fix in titles(d):
                if d["n"] not in FIXKIND: continue
                t2 = apply(t.encode(), fix)
                if t2 is None:
                    c.violation("the fix %r of %r has edits outside the text or overlapping" % (title, t), {"text": t, "fix": fix}); continue
                after = table.get(key(flist(t2.decode())))
                what = "%r: after %r of %s it is %r" % (t, title, d["n"], t2.decode())
                if after is None:
                    c.violation(what + ", longer than it may be", {"text": t, "after": t2.decode()}); continue
                ids = lambda x: [(y["n"], y["d"]) for y in x if y["t"] == "id"]
                ell = lambda x: any(y["t"] == "ell" for y in x)
                if ids(k["toks"]) != ids(after["toks"]) or ell(k["toks"]) != ell(after["toks"]):
                    c.violation(what + ", with other parameters", {"text": t, "after": t2.decode()}, sig=t)
                elif len(after["rep"]) >= len(k["rep"]):
                    c.violation(what + ", as wrong as before: %s, then %s" % (k["rep"], after["rep"]), {"text": t, "after": t2.decode()}, sig=t)
                else:
                    n = lambda x: sum(1 for y in x["rep"] if y[0] == FIXKIND[d["n"]])
                    if n(after) >= n(k) and d["n"] != "sema-misplaced-ellipsis":
                        c.violation(what + ", where it is still reported", {"text": t, "after": t2.decode()}, sig=t)
                    elif len(t) > 15: c.sample({"list": t, "fix": title, "after": t2.decode()}, 18)

ONEOFF = {"remove extra .", "insert dummy attrname", "insert dummy attrpath", "replace 'or' with '||'", "insert dummy formals", "remove extra @", "remove (", "remove ( and )", "remove unexpected text",
          "remove `inherit` keyword", "convert it to string", "insert id"}
def bare(n):
    """the tree without its parentheses"""
    if not isinstance(n, list) or len(n) < 4: return n
    if n[0] == "ExprParen" and n[3] and n[3][0]: return bare(n[3][0])
    return n[:3] + [[bare(x) for x in n[3]]]
def heads(n, acc):
    """where expressions called begin"""
    if isinstance(n, list) and len(n) >= 4:
        if n[0] == "ExprCall" and n[3][0][0] == "ExprParen" and n[3][0][3][0] and n[3][0][3][0][0] in ("ExprInt", "ExprFloat", "ExprString", "ExprPath", "ExprSPath"): acc.add(n[3][0][1][0])
        for x in n[3]: heads(x, acc)
    return acc
def strip(t): return c06.norm(c06.sx(bare(t))) if t else None
def everywhere(c, exe, texts):
    """Any text: edits are applicable; the reported problem is not there any more; parentheses and URLs keep the tree."""
    texts = list(dict.fromkeys(texts))
    res = batch(exe, [{"s": t.hex(), "m": "td"} for t in texts])
    jobs = []
    for t, r in zip(texts, res):
        if "skipped" in r: continue
        c.validated += 1
        if "crash" in r: c.violation("parsing %r died: %s" % (t, r["crash"]), {"text": t.hex()}); continue
        for d in r["d"]:
            for title, fix in titles(d):
                t2 = apply(t, fix)
                if t2 is None: c.violation("the fix %r of %r has edits outside the text or overlapping: %s" % (title, t, fix), {"text": t.hex(), "fix": fix}); continue
                c.extra.setdefault("fixes applied", {})
                c.extra["fixes applied"][title] = c.extra["fixes applied"].get(title, 0) + 1
                if title in ONEOFF: jobs.append((t, r, d, title, fix, t2))
    res = batch(exe, [{"s": j[5].hex(), "m": "td"} for j in jobs])
    for (t, r0, d, title, fix, t2), r in zip(jobs, res):
        if "skipped" in r: continue
        what = "%r: after %r of %s it is %r" % (t, title, d["n"], t2)
        if "crash" in r: c.violation(what + ", parsing which dies", {"text": t.hex()}); continue
        delta = lambda o: sum(len(e[1]) // 2 - (e[0][1] - e[0][0]) for e in fix[1] if e[0][1] <= o)
        def end(o):      # an edit that covers o maps it to the start of its new text
            for e in fix[1]:
                if e[0][0] <= o < e[0][1]: return None
            return o + delta(o)
        o = end(d["r"][0])
        here = [x for x in r["d"] if x["n"] == d["n"] and x["args"] == d["args"] and x["r"][0] == o and x["r"][1] == end(d["r"][1])]
        if o is not None and here:
            c.violation(what + ", where it is still reported", {"text": t.hex(), "after": t2.hex()}, sig=t.decode("latin1"))
        elif title.startswith("remove (") and d["r"][0] not in heads(r0["t"], set()) and not errors(r0) and (errors(r) or strip(r["t"]) != strip(r0["t"])):
            c.violation(what + ", which means something else", {"text": t.hex(), "after": t2.hex()}, sig=t.decode("latin1"))
        elif title == "convert it to string" and not errors(r0) and errors(r):
            c.violation(what + ", with %s" % errors(r), {"text": t.hex(), "after": t2.hex()}, sig=t.decode("latin1"))

def run(c):
    exe = c.build("nixf_h")
    rnd = random.Random(c.seed)
    # reports on names
    n = names(c, exe, "small", rnd, Budget=c.pick(1, 2), limit=c.pick(6000, 400000))
    n += names(c, exe, "scopes", rnd, Budget=c.pick(3, 4), DefNames=S("a"), VarNames=S("a"), MaxBinds=1, Forms=S(["let", "with", "rec", "set", "oldlet", "fn", "select"]), BindForms=S(["inherit", "from", "path"]), limit=c.pick(8000, 400000))
    BI = dict(DefNames=S(["a", "map", "builtins"]), VarNames=S(["map", "add", "builtins", "a"]), AttrNames=S(["map", "add"]), Prefixed=S(["add"]), Consts=S(["true"]))
    n += names(c, exe, "builtins", rnd, **dict(BI, Budget=2, MaxBinds=1, Forms=S(["let", "with", "fn", "rec", "builtins", "oldlet"]), BindForms=S(["inherit", "builtins"]), limit=c.pick(8000, 400000)))
    n += names(c, exe, "deep", rnd, sim=c.pick(200, 20000), **dict(BI, Budget=7, MaxBinds=3, DefNames=S(["a", "b", "c", "map"]), VarNames=S(["a", "b", "c", "d", "map", "add"]), AttrNames=S(["map", "b"]),
               Forms=S(FORMS + ["builtins"]), BindForms=S(BINDS + ["builtins"]), EmitAll="FALSE", limit=c.pick(6000, 400000)))
    c.extra["name fixes applied"] = n
    # single faults
    repairs(c, exe, "faults", rnd, limit=c.pick(700, 10**6), Budget=c.pick(3, 4) if c.thorough else 2)
    repairs(c, exe, "faultsim", rnd, limit=c.pick(500, 10**6), Budget=10, sim=c.pick(250, 10000))
    params(c, exe, rnd, name="formals", Ids=S("ab"), MaxLen=c.pick(4, 5))
    params(c, exe, rnd, name="nearly", Ids=S("abc"), MaxLen=c.pick(8, 10), Defs="{FALSE}", MaxRep=2)
    # any text
    r = c.tlc("Soup", dict(Alphabet=S(c05.TOKS + list(c05.SPECIAL)), MaxLen=2, MinLen=0), invariants=["TypeOK", "Emit"], name="soup2")
    join = lambda s: b" ".join(c05.byt(p) for p in s)
    soups = [join(s) for s in r.cases]
    texts = soups + [p + t for p in (b"{ a = ", b"let a", b"{ inherit ", b"x: a ", b"a.", b"(", b"{ ${") for t in rnd.sample(soups, c.pick(1500, len(soups)))]
    com = dict(Start='"E"', Omit="{}")
    r = c.tlc("GrammarMut", dict(com, Budget=8, Edits=2, Junk=S(c05.TOKS)), init="MInit", next="MNext", invariants=["MTypeOK", "MEmit"], name="damaged", simulate=c.pick(400, 20000), depth=700, workers=1)
    texts += [c06.text_of(k, rnd).encode() for k in rnd.sample(r.cases, min(len(r.cases), c.pick(6000, 10**6)))]
    r = c.tlc("Grammar", dict(com, Budget=2), invariants=["Emit"], name="sentences")
    paren = [k for k in r.cases if "paren" in k["used"] or "fparen" in k["used"]]
    texts += [(TightText(k["text"]) if rnd.random() < .5 else c06.text_of(k["text"], rnd)).encode() for k in rnd.sample(paren, min(len(paren), c.pick(4000, 10**6)))]
    pre = {"": ["", "[ ", "f ", "- ", "a ++ ", "x: ", "if a then b else ", "let a = b; in ", "with a; "], "x": ["{ a = ", "[ ", "rec { a = "], "y": ["(", "[", "{a="]}
    for u in ("http://a", "x:y", "https://example.com/a-b?c=%20d&e=$f'g", "a:b+c"):
        texts += [(p + u + q).encode() for a in pre.values() for p in a for q in ("", " ", ")", "]", ";}", " b", "\n")]
    everywhere(c, exe, texts)

def TightText(pieces):
    out, glue = "", True
    for p in pieces:
        if p == "":
            glue = True; continue
        if out and not glue and (word(out[-1]) and word(p[0]) or not (p in "()[]{};,=" or out[-1] in "()[]{};,=")): out += " "
        out += p; glue = False
    return out

if __name__ == "__main__":
    main(run, "C13")
