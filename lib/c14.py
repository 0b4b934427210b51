"""C14: attribute set refactorings preserve the attribute set."""
from common import *
from lspbatch import *
from nixast import *
from c06 import text_of, S
import random

QUOTE, UNQUOTE, FLAT, PACK = "Quote attribute name", "Unquote attribute name", "Flatten nested attribute set", "Pack dotted path to nested set"
BIND = "Convert to explicit binding"
ALLOF, DEEPOF, INH = re.compile(r"Pack all '(.*)' bindings to nested set$", re.S), re.compile(r"Recursively pack all '(.*)' bindings to nested set$", re.S), re.compile(r"Convert to `inherit", re.S)
def kind(t):
    return {QUOTE: "quote", UNQUOTE: "unquote", FLAT: "flatten", PACK: "pack", BIND: "bind"}.get(t) or ("all" if ALLOF.match(t) else "deep" if DEEPOF.match(t) else "inherit" if INH.match(t) else None)

# Layouts, and what no model writes: escapes, many names, interpolations, comments, other languages
ODD = r'''
{inherit"a";b=1;}|{inherit(x)"a";}|x."a"y|[x."a" y]|x."a"or y|(x."a"or y)|x."b"/c|x."b"/ c|[x."b"/c]|x ? "a"|x?"a"/b|x?"a"|a."b"''c''|let"x"=1;in"x"|{a."b"=1;}|{"a"=1;}|{"a".b=1;}|rec{"a"=a;}
{ "a\"b" = 1; }|{ "a\"b".c = 1; "a\"b".d = 2; }|{ "${"a"}" = 1; }|{ "${x}" = 1; }|{ ${"a"} = x.a; }|{ "a${x}b" = 1; }|{ "$" = 1; "\${" = x."\${"; }|{ "\${a}".b = 1; "\${a}".c = 1; }|{ "é" = 1; "é" = x."é"; }|{ "é".b = 1; "é".c = 1; }
{ "" = 1; }|{ "" = x.""; }|{ "".a = 1; "".b = 1; }|{ "or" = 1; }|{ or = x.or; }|{ inherit (x) or; }|{ inherit or; }|x.or|x."or"|{ "a b" = x."a b"; }|{ "1" = x."1"; }|{ "a-b" = x."a-b"; }|{ "a'" = x."a'"; }|{ true = true; }|{ "true" = true; }|{ inherit true; }|{ inherit null; }|{ null = null; }|{ "null" = x."null"; }
{ inherit "in"; }|{ inherit (x) "in"; }|{ inherit (x) "a b"; }|{ inherit "a b"; }|{ inherit (x) "a${"b"}"; }|{ inherit (x) ${"b"}; }|{ inherit a b; }|{ inherit (x) a b; }|{ inherit; }|{ inherit (x); }|{ inherit (f x) a; }|{ inherit (x.y or z) a; }|{ inherit (x: x) a; }|{ inherit (with x; y) a; }|{ inherit (-1) a; }|{ inherit ({ a = 1; }) a; }|{ inherit (rec { a = 1; }) a; }|{ inherit ("s") a; }|{ inherit (''s'') a; }|{ inherit ([ ]) a; }|{ inherit (./p) a; }|{ inherit (http://u) a; }|{ inherit (1) a; }|{ inherit (1.) a; }|{ inherit (<p>) a; }|{ inherit ((x)) a; }|{ inherit (let a = 1; in x) a; }|{ inherit (let { body = 1; }) a; }|{ inherit (if x then y else z) a; }|{ inherit (assert x; y) a; }|{ inherit (!x) a; }|{ inherit (a // b) a; }|{ inherit (x ? y) a; }|{ inherit (x.a) a; }|{ inherit (x."a b") c; }|{ inherit (x.${y}) c; }
{inherit(x)a;}|{inherit(x y)a;}|rec { inherit (x) a; }|rec { inherit x; }|rec { inherit x; y = x; }|let inherit x; in x|let inherit (x) y; in y|let inherit (y) y; in y|rec { inherit (x) x; }|let x = 1; in rec { inherit x; }|{ a = rec { inherit x; }; }|x: { inherit x; }|{ inherit /*c*/ x /*d*/ ; }|{ /*b*/ inherit (x) # c
 a; }
{ a = { b = 1; }; }|{ a = { b = 1; c = 2; }; }|{a={b=1;};}|{ a = { "b" = 1; "c d" = 2; }; }|{ a = { b = { c = 1; }; }; }|{ a = { /*c*/ b = 1; /*d*/ }; }|{ a = { b = 1; # c
 c = 2; }; }|{ a = { b = x: x; c = y; }; }|{ a = { b = with x; y; }; }|rec { a = { b = a; }; }|rec { b = 1; a = { b = b; }; }|{ a = rec { b = 1; }; }|{ a = { ${x} = 1; }; }|{ ${x} = { a = 1; }; }|{ a = ({ b = 1; }); }|{ a.b = { c = 1; }; }|{ a.b = { c = 1; }; a.d = 2; }|{ a = { b = 1; }; a.c = 2; }|{ a = { b = 1; }; a = { c = 2; }; }|{ a = { inherit b; }; }|{ a = { b = 1; inherit c; }; }|{ a = { inherit (x) b; }; }|{ a = { }; }|{ a = { inherit; }; }|let a = { b = 1; }; in a|let { a = { b = 1; }; body = a; }|{ "a b" = { "c d" = 1; }; }|{ a = { "a\nb" = 1; }; }|{ a = { b.c = 1; d.e = 2; }; }|{ a = { b = ''x
  y''; c = "z"; }; }|{ a = { b = 1; } // c; }|{ a = { b = 1; }.b; }|f { a = { b = 1; }; }|[ { a = { b = 1; }; } ]
{ a.b = 1; a.c = 2; }|{ a.b = 1; }|{a.b=1;}|{a.b=1;a.c=2;}|{ a.b = 1; c = 2; a.d = 3; }|{ a.b = 1; /* x */ a.c = 2; }|{ a.b = 1; # x
 a.c = 2; }|{ a.b = 1;a.c = 2;c.d=a;a.e=3;}|{ a.b.c = 1; a.b.d = 2; a.e = 3; }|{ a.b = { c = 1; }; a.d = 2; }|{ a.b = { c = 1; }; a.b.d = 2; }|{ a.b = { inherit c; }; a.d = 2; }|{ a.b = rec { c = 1; d = c; }; a.d = 2; }|{ a.b = rec { c = 1; }; a.b.d = 2; a.e = 2; }|{ a.b = { ${x} = 1; }; a.d = 2; }|{ a.${x} = 1; a.d = 2; }|{ a.b.${x} = 1; a.d = 2; }|{ ${x}.a = 1; ${x}.b = 2; }|{ a = 1; b.c = 1; b.d = 2; }|{ a = { b = 1; }; a.c = 1; a.d = 2; }|{ a = { b.c = 1; }; a.b.d = 1; a.e = 2; }|{ inherit a; b.c = 1; b.d = 2; }|{ inherit (x) y; a.b = 1; inherit z; a.c = 2; }|rec { a.b = 1; a.c = 2; }|let a.b = 1; a.c = 2; in a|{ "a".b = 1; a.c = 2; }|{ "a b".c = 1; "a b".d = 2; }|{ in.b = 1; }|{ "in".b = 1; "in".c = 1; }|{ a."b" = 1; a."c d" = 1; }|{ a.b = x: y; a.c = 1; }|{ a.b.c.d.e = 1; a.b.c.f = 2; a.b.g = { h.i = 3; }; }|{ a.b = a; a.c = b; }|{ a /*c*/ . /*d*/ b = 1; a.c = 2; }|{ a.b = 1; "a" = { c = 2; }; }|{ a.b = ({ c = 1; }); a.c = 2; }|{ a.b = { }; a.c = { }; }|{ a.b = { inherit; }; a.c = { }; }|{ a.b = { inherit (x) y; }; a.b.c = 1; a.d = 2; }|{ a.b."c" = 1; a."b".d = 2; }|{ é.b = 1; }|{ a.b = 1; "é" = 3; a.c = "é"; }|{ x.a.b = 1; x.a.c = x.a.b; x = { d = 1; }; }
{ a = x.a; }|{ a = x.b.a; }|{ a = x."b c".a; }|{ a = x.${y}.a; }|{ a = x.a.b; }|{ a = x.a or y; }|{ a = (f x).a; }|{ a = (x).a; }|{ a = ((x)).b.a; }|{ a = { a = 1; }.a; }|{ a = rec { a = 1; }.b.a; }|{a=x.a;}|{ a = "s".a; }|{ a = [ ].a; }|{ a = <p>.a; }|{ a = ./p .a; }|{ a = 1 .a; }|{ "a" = x."a"; }|{ "a b" = x."a b"; }|{ a.b = x.b; }|{ a = x.a; a2 = a; }|rec { a = x.a; }|rec { x = x.x; }|let a = x.a; in a|let x = x.x; in x|let"a"=x.a;in a|let"a"=a;in a|{ a = (x.a); }|{ a = a; }|rec { a = a; }|{ a = (a); }|let a = a; in a|let a = 1; in { a = a; }|let a = 1; in rec { a = a; b = a; }|{ a = rec { a = a; }; }|{ a /*c*/ = /*d*/ x.a /*e*/ ; }|{ a = x # c
 .a; }|{ "a" = a; }|{ in = x.in; }|{ or = or; }|with x; { a = a; }|{ a = with x; a; }|{ a = b; }|{ ${"a"} = x.${"a"}; }|{ "${"a"}" = x.a; }|{a="é".a;}
'''.strip("\n").replace("|\n", "\n")
ODDS = [t for l in re.split(r"\n(?=[{x])", ODD) for t in l.split("|")]
ODDS = [t for t in ODDS if t.strip()]
BROKEN = ["{ a = { b. = 1; }; }", "{ a = { .b = 1; }; }", "{ a. = 1; }", "{ a..b = 1; a.c = 2; }", "{ a = { b = ; }; }", "{ a.b = ; a.c = 1; }", "{ a = ", "{ a.b", "{ inherit", "{ inherit ( a; }", "{ inherit (x", "{ a = x.; }", "{ a = x..a; }", "{ a = { b }; }", "{ a.b = 1 a.c = 2; }",
          "{ a = x.${; }", "{ \"a", "{ \"a\" = ", "{ \"a${\" = 1; }", "{ a.${} = 1; }", "{ ${}.a = 1; ${}.b = 2; }", "{ a.b.c. = 1; a.b.d = 2; }", "{ . = 1; }", "{ a.b = 1; a. }", "let a. = 1; in a", "{ a = { ${} = 1; }; }", "{ inherit ${}; }", "{ inherit (x) ${}; }", "{ a = x.\"a; }"]

def tight(toks):
    out = ""
    for t in toks:
        if out and (re.match(r"[\w.]", t[0]) and re.search(r"[\w'.-]$", out) and not (t == "." or out[-1] == ".") or out[-1] == ":"): out += " "
        out += t
    return out
def layout(toks, rnd):
    how = rnd.random()
    if how < .35: return " ".join(toks)
    if how < .55: return tight(toks)
    if how < .8: return "".join(t + rnd.choice([" ", "\n", "  ", "\r\n", " # c\n", "/*d*/", "\t"]) for t in toks)
    return "".join(t + (rnd.choice(["\n", "\n  "]) if t == ";" else " ") for t in toks)

class Text:
    def __init__(self, text, rep, grid):
        self.text, self.src, self.rep = text, text.encode("utf-8"), rep
        self.tree = rep.get("t")
        self.bad = errors(rep, False)      # what is undefined stays so: Denote says
        offs = {0, len(text)}
        if self.tree:
            for n, _ in all_nodes(self.tree):
                if n[0] in ("AttrName", "Binding", "Inherit", "ExprVar", "AttrPath"):
                    offs |= {len(self.src[:o].decode("utf-8", "replace")) for o in n[1][:2]}
                    offs.add(min(len(text), len(self.src[:n[1][0]].decode("utf-8", "replace")) + 1))
        if grid: offs = set(range(len(text) + 1))
        self.offs = [(o, o) for o in sorted(offs)]
        self.offs += [(a, b) for a, b in zip(sorted(offs), sorted(offs)[grid and 3 or 1:])]        # selections
        self.doc = Doc(text, [("textDocument/codeAction", {"range": {"start": pos(text, a), "end": pos(text, b)}, "context": {"diagnostics": []}}) for a, b in self.offs], tag=self)

def binding_name(b):
    p = kids(b, "AttrPath")
    n = kids(p[0], "AttrName") if p else []
    return unhx(n[0][2]) if n and n[0][2] is not None else None

def targets(x, k, at, to, title):
    """byte ranges the action may edit"""
    out = []
    for n, up in all_nodes(x.tree):
        if not n[1][0] <= at <= to <= n[1][1]: continue
        if n[0] == "AttrName" and k in ("quote", "unquote"): out.append(n)
        if n[0] == "Binding" and k in ("flatten", "pack", "inherit"): out.append(n)
        if n[0] == "Inherit" and k == "bind": out.append(n)
        if n[0] == "Binding" and k in ("all", "deep"):
            nm = binding_name(n)
            if nm is not None and nm == (ALLOF.match(title) or DEEPOF.match(title)).group(1):
                out += [m for m in kids(up[-1], "Binding") if binding_name(m) == nm]
    return out

def replay(c, texts, exe, hexe, name):
    docs = ask(exe, [x.doc for x in texts])
    todo = []
    for x, d in zip(texts, docs):
        c.validated += 1
        if d.dead:
            c.violation("asking for code actions in %r: %s" % (x.text, d.dead), {"text": x.text}); continue
        if x.bad: continue
        seen = set()
        for (o, o2), r in zip(x.offs, d.replies):
            if "error" in r: continue
            for a in r.get("result") or []:
                k = kind(a["title"])
                if not k: continue
                ed = (a.get("edit") or {}).get("changes") or {}
                key = (a["title"], json.dumps(ed, sort_keys=True))
                if key in seen: continue
                seen.add(key)
                what = "%r at %d%s in %r" % (a["title"], o, "" if o == o2 else "-%d" % o2, x.text)
                t2 = apply_edits(x.text, ed.get(d.uri, [])) if list(ed) == [d.uri] else None
                if t2 is None:
                    c.violation(what + " edits something else, or twice: %s" % ed, {"text": x.text, "action": a}, sig=x.text); continue
                tg = targets(x, k, len(x.text[:o].encode()), len(x.text[:o2].encode()), a["title"])
                ok = [False] * (len(x.src) + 1)
                for n in tg:
                    b, e = n[1][:2]
                    while b > 0 and x.src[b - 1:b].isspace(): b -= 1
                    while e < len(x.src) and x.src[e:e + 1].isspace(): e += 1
                    for i in range(b, e): ok[i] = True
                out = [e for e in ed[d.uri] for (b, f) in [rng(x.text, e["range"])] for (B, E) in [(len(x.text[:b].encode()), len(x.text[:f].encode()))]
                       if not all(ok[B:E]) or B == E and not (ok[B] or B > 0 and ok[B - 1])]
                if out:
                    c.violation(what + " edits other text: %s" % out, {"text": x.text, "after": t2}, sig=x.text); continue
                if not tg:
                    c.violation(what + " has no such construct there", {"text": x.text}, sig=x.text); continue
                # the documented conversion of `x = x` in a recursive set
                loop = None
                if k == "inherit" and "(" not in a["title"]: loop = max(tg, key=lambda n: n[1][0])[1][0]
                todo.append((x, what, t2, k, loop))
    par = batch(hexe, [{"s": hx(t[2]), "m": "tdv"} for t in todo])
    recs, who = [], []
    for (x, what, t2, k, loop), r in zip(todo, par):
        c.extra.setdefault("actions", {}); c.extra["actions"][k] = c.extra["actions"].get(k, 0) + 1
        if "crash" in r or r.get("t") is None:
            c.violation("%s yields %r, which is no program" % (what, t2), {"text": x.text, "after": t2}, sig=x.text); continue
        new = errors(r, False)
        if new:
            c.violation("%s yields %r with errors %s" % (what, t2, new), {"text": x.text, "after": t2}, sig=x.text); continue
        recs.append({"before": Ast(x.src, loop).expr(x.tree), "after": Ast(t2.encode()).expr(r["t"])})
        who.append((x, what, t2))
    if not recs: return
    f = os.path.join(c.run, name + ".ndjson")
    with open(f, "w") as o:
        for r in recs: o.write(enc(json.dumps(r, ensure_ascii=False)) + "\n")
    tl = c.tlc("Refactored", invariants=["Check"], name=name, env={"RECORDS": f}, post="All")
    for k in tl.cases:
        x, what, t2 = who[k["l"] - 1]
        c.violation("%s yields %r, which denotes something else" % (what, t2), {"text": x.text, "after": t2}, sig=x.text)
    for x, what, t2 in who: c.sample({"action": what, "after": t2}, 12)

def run(c):
    exe, hexe = c.build("nixd", "nixf_h")
    rnd = random.Random(c.seed)
    def go(texts, name, grid=.1):
        texts = list(dict.fromkeys(texts))
        par = batch(hexe, [{"s": hx(t), "m": "tdv"} for t in texts])
        replay(c, [Text(t, r, grid == 1 or rnd.random() < grid) for t, r in zip(texts, par) if "crash" not in r], exe, hexe, name)
    go(ODDS + BROKEN, "odd", 1)
    go(["[ %s ]" % t for t in ODDS if not t.startswith(("let", "x"))], "listed", 0)
    inv = ["Same", "Unique", "Emit"]
    r = c.tlc("Refactor", dict(MaxBinds=2, MaxOps=c.pick(1, 2), Small="TRUE"), invariants=inv, name="small")
    ks = [k["t"] for k in r.cases]
    ks = rnd.sample(ks, min(len(ks), c.pick(700, 10**6)))
    r = c.tlc("Refactor", dict(MaxBinds=3, MaxOps=2, Small="FALSE"), invariants=inv, name="sets", simulate=c.pick(600, 20000), depth=9, workers=1, timeout=1800)
    ks += [k["t"] for k in r.cases]
    go([layout(t, rnd) for t in ks], "sets_edits")
    r = c.tlc("Grammar", dict(Budget=14, Start='"E"', Omit=S(["oldlet_operand"])), invariants=["TypeOK", "Balanced", "Emit"], name="programs", simulate=c.pick(400, 20000), depth=1200, workers=1)
    go([text_of(k["text"], rnd if rnd.random() < .5 else None) for k in r.cases], "programs_edits")
    for k in ("quote", "unquote", "flatten", "pack", "all", "deep", "inherit", "bind"):
        if not c.extra.get("actions", {}).get(k): raise Inconclusive("no %s action was ever offered" % k)

if __name__ == "__main__":
    main(run, "C14")
