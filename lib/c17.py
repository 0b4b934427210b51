"""C17: scope-changing refactorings keep every name's meaning."""
from common import *
from lspbatch import *
from nixast import *
from c06 import text_of, S
from c14 import layout
import scope, random, urllib.parse

LET = "Convert `with` to `let/inherit`"
ADD = re.compile(r"add `(.*)` to formals$", re.S)
EXT = re.compile(r"Extract to (.*?\.nix)( \((\d+) free variables?(, has 'with' vars)?\))?$", re.S)
def kind(t): return "let" if t == LET else "add" if ADD.match(t) else "extract" if EXT.match(t) else None

ODD = r'''
with a; x|with a; with b; x|with a; [ x (with b; y) ]|with a; let x = 1; in x|with a; let y = x; in y|with x; x|with { inherit x; }; x|with rec { x = 1; y = x; }; [ x y ]|with (let x = 1; in { y = x; }); [ x y ]|with a; { inherit x; }|with a; { inherit (x) y; }|with a; rec { x = x; y = z; }|with a; x: x y|with a; { x, y ? z }: [ x y z w ]
with a; map x|let map = 1; in with a; [ map x ]|with a; [ true null builtins.x __add import y ]|with a; "${x}"|with a; x.y or z|with a; { ${x} = 1; }|with a; x ? y|with a; x ? ${y}|with(a);x|[(with a;x)]|(with a;x)y|with a;''${x}''|with a; /*c*/ x # d
|with a # c
; x|let a = 1; in with a; [ a x ]|x: with x; [ x y ]|with a; with x; y|with a; with { y = x; }; y|with a; (with b; x) x|rec { x = with a; [ x y ]; }|with a; { x.y = z; x.w = v; }|with a; let inherit (b) c; in c|with a; let inherit b; in b|with with a; b; c|with a; assert x; y|with a; if x then y else z|with a.b."c d"; x|with a b; c|with import ./x; y|with a // b; c|with a; or|with a; x or y|with x: x; y|with -a; b|with if x then y else z; w|with let y = 1; in y; z|with [ x ]; y|with "s"; y|with ./p; y|with http://u; y|with 1; y|with <p>; y
{ a }: x|{ }: x|{}: x|{}:x|{ ... }: x|{ a, ... }: x|{ a, }: x|{ a ? 1 }: x|{ a ? b }: [ x b ]|{ a ? http://u }: x|{ a ? http://u, b }: x|{ a ? ./p }: x|{ a ? x }: a|args@{ a }: x|{ a }@args: [ x args ]|{ a }: { b }: [ x a b ]|{ a }: b: [ x a b ]|b: { a }: [ x a b ]|{ a }: [ x (with a; x) ]|{ a }: with x; y|{ a }: with x; [ x y ]|with b; { a }: x|{ a }: with b; with x; x|{ a }: rec { y = x; }|{ a }: { inherit x; }|{ a }: { inherit (x) y; }|{ a }: let x = 1; in [ x y ]|{ a }: [ (let x = 1; in x) x ]|{ a }: { x }: x|{ a }: ({ x }: x) x|{ a }: (x: x) x|{ a }: y: x|y: x|{a}:{b}:x|{ a /*c*/ }: x|{ a, # c
 b }: x|{ /*c*/ }: x|{ ... /*c*/ }: x|{a?1}:x|{a,...}:x|{ a ? "s" }: x|{ a ? ''s'' }: x|{ a ? [ ] }: x|{ a ? 1. }: x|{ a ? <p> }: x|{ a ? b.c }: x|{ a ? x: x }: x|{ a ? x:x }: x|let f = { a }: x; in f|rec { f = { a }: [ x f ]; }|{ f = { a }: [ x f ]; }|{ a, b }@c: d|{ a }: { b = { c }: x; d = x; }|{ a }: "${x}"|{ a }: x.y or x|{ a }: y ? ${x}|{ a }: __foo|{ a }: maps|{ a }: add|{ a ? { x }: y }: z|{ a ? { x }: y, b }: y
let a = 1; in { b = [ a ]; }|let a = 1; in { b = [ a c ]; }|let a = 1; in [ [ a ] ]|a: b: { c = a b; }|a: { inherit a; }|a: { b = { inherit a; }; }|a: { b = { inherit (a) c; d = a; }; }|rec { a = 1; b = { c = a; }; }|rec { a = [ b ]; b = [ a ]; }|with a; { b = [ c ]; }|with a; { b = with c; [ d ]; }|{ b = with a; [ c ]; }|{ b = with a; with b; c; }|with a; { b = x: [ x c ]; }|{ b = x: x; }|{ b = map (x: x) y; }|let import = 1; in { b = [ 1 ]; }|import: { b = [ 1 ]; }|with a; { b = [ import ]; }|rec { import = [ 1 ]; b = [ 2 ]; }|{ import = [ 1 ]; }|{ b = import ./a.nix; }|x: f [ x ]|x: f (g x)|x: - [ x ]|x: !(f x)|x: (f x).y|x: { a = x; }.a|x: { a = x; } ? a|x: { a = x; }.a or [ x ]|x: (f x) + [ x ]|x: [ x ] ++ [ x ]|x: [ (f x) [ x ] { y = x; } ]|x: if f x then [ x ] else { y = x; }|x: assert f x; [ x ]|x: with f x; [ x ]|x: let y = f x; in [ y ]|x: { inherit (f x) y; }|x: { y ? f x }: y|x: "${f x}"|x: { ${f x} = 1; }|x: a.${f x}|x: a ? ${f x}|x: let { body = f x; }|x: f:[x]|x:[x]|x:f x|a:b:[a b]|let { a = [ 1 ]; body = { b = a; }; }|let a.b = 1; a = { c = 2; }; in { d = [ a ]; }|{ a = { b = 1; }; a = { c = 2; }; }|{ a = { b = 1; }; a.c = 2; }|{ a.b = { c = 1; }; a.d = 2; }|{ "a b" = [ 1 ]; }|{ "a/b" = [ 1 ]; }|{ "é" = [ 1 ]; }|{ "" = [ 1 ]; }|{ ".." = [ 1 ]; }|{ a.${x} = [ 1 ]; }|{ a = [ 1 ]; }|{ a-1 = [ 1 ]; }|{ b = [ 1 ]; }|f: { b = f 1 2; }|f: { b = f (x: x) { y = 1; }; }|x: if x then[x]else[x]|let x=1;in{y=[x];}|let x=1;in[x]|x: { y = [ x ] /*c*/ ; }|x: { y = [ x # c
 ]; }|x: { y = ''
    a ${[ x ]}
  '' + f x; }|x: { y = (f x); }|x: { y = ((x)); }|x: { y = x; }|x: (x)|x: -x|x: { y = -x; z = !x; w = x ? y; }|x: { y = ./a + "${[ x ]}"; }|x: { y = rec { z = x; x = 1; }; }|x: { y = let z = x; in z; }|x: { y = { x, z ? x }: z; }|x: { y = { z ? x }@w: [ w x ]; }|a: { b = c: d: [ a c d e ]; }|a: { b = with a; a; }|a: { b = with a; [ a c ]; }|true: { b = [ true ]; }|{ b = [ true null ]; }|map: { b = map [ ]; }|x: { y = [ x ]; } // { z = [ x ]; }|x: f { y = x; }.y|x: f { y = x; } z|x: [ -1 (-x) ]|{ b = [ __curPos ]; }|or: { b = [ or ]; }|{ b = a: a; c = { d = e: e; }; }
'''
ODDS = [t for l in re.split(r"\n(?=with a; x\||with a; map|[|{]|let a|\{ a \}: x)", ODD.strip("\n")) for t in l.split("|") if t.strip()]
BROKEN = ["with", "with a", "with a;", "with ; x", "with a; x)", "{ a", "{ a }", "{ a }:", "{ a }: {", "{ a, , b }: x", "{ , }: x", "{ a b }: x", "{ a ? }: x", "{ a. = [ x ]; }", "{ a..b = [ x ]; }", "{ .a = [ x ]; }", "{ a = [ x ; }", "{ a = f x }", "[ x", "(f x", "f x)", "x: { y = (f ); }", "x: { y = f x + ; }", "x: { y = if x then [ x ]; }", "x: { y = let z = [ x ]; }", "x: { y = with x; }", "x: { y = { z ? }: x; }", "x: { y = { inherit; }; }", "x: { y = { inherit (x; }; }", "x: { y = { inherit (x) ${}; }; }", "x: { y = \"${[ x }\"; }", "{ a, a }: x", "a@{ a }: x", "{ a }: { x = y; x = z; }",
          "with a; [ x", "with a; { x = y }", "with (a; x", "with a; \"${x\"", "with a; { ${} = x; }"]

class Text:
    def __init__(self, text, rep, grid, uri):
        self.text, self.src, self.rep = text, text.encode("utf-8"), rep
        self.tree = rep.get("t")
        self.bad = errors(rep)
        offs, sel = {0, len(text)}, set()
        ch = lambda o: len(self.src[:o].decode("utf-8", "replace"))
        for n, _ in all_nodes(self.tree) if self.tree else ():
            b, e = ch(n[1][0]), ch(n[1][1])
            offs |= {b, e}
            if is_expr(n): sel.add((b, e))
        if grid: offs = set(range(len(text) + 1))
        self.offs = [(o, o) for o in sorted(offs)] + sorted(sel)
        self.doc = Doc(text, [("textDocument/codeAction", {"range": {"start": pos(text, a), "end": pos(text, b)}, "context": {"diagnostics": []}}) for a, b in self.offs], tag=self, uri=uri)

def same_range(x, r, kinds=None):
    """nodes of exactly that byte range"""
    return [n for n, _ in all_nodes(x.tree) if list(n[1][:2]) == list(r) and (not kinds or n[0] in kinds)]

class Judge:
    def __init__(self, c, hexe, dir): self.c, self.hexe, self.dir, self.todo = c, hexe, dir, []
    def bad(self, x, what, more=""): self.c.violation(what + more, {"text": x.text}, sig=x.text)
    def edit(self, x, es, what):
        """the text after a single edit and its byte range"""
        if len(es) != 1: return self.bad(x, what, " has %d edits" % len(es))
        t2 = apply_edits(x.text, es)
        if t2 is None: return self.bad(x, what, " edits outside of the text: %s" % es)
        b, e = rng(x.text, es[0]["range"])
        return t2, (len(x.text[:b].encode()), len(x.text[:e].encode()))
    def take(self, x, uri, a, at, to, what):
        k = kind(a["title"])
        ed = a.get("edit") or {}
        if k in ("let", "add"):
            if list(ed.get("changes") or {}) != [uri] or ed.get("documentChanges"): return self.bad(x, what, " edits another file: %s" % ed)
            r = self.edit(x, ed["changes"][uri], what)
            if not r: return
            t2, r = r
        if k == "let":
            ns = same_range(x, r, ("ExprWith",))
            if not ns or not ns[0][1][0] <= at <= ns[0][1][0] + 4: return self.bad(x, what, " is for no `with` there: %s" % ed)
            self.todo.append((x, what, k, t2, {("ExprWith", r[0]): ("mark",)}, {("ExprLet", r[0]): ("letw",)}, None))
        elif k == "add":
            v = ADD.match(a["title"]).group(1)
            ls = [n for n, _ in all_nodes(x.tree) if n[0] == "ExprLambda" for A in kids(n, "LambdaArg") for F in kids(A, "Formals") if F[1][0] < r[0] and r[1] < F[1][1]]
            vs = [n for n, _ in all_nodes(x.tree) if n[0] == "ExprVar" and unhx(n[2]) == v and n[1][0] <= at <= to <= n[1][1]]
            if not ls or not vs: return self.bad(x, what, " is for no parameters and no such variable there: %s" % ed)
            l = ls[-1]
            if not l[1][0] <= vs[0][1][0] < l[1][1]: return self.bad(x, what, " adds a parameter to another function: %s" % ed)
            key = ("ExprLambda", l[1][0])
            self.todo.append((x, what, k, t2, {key: ("fnb", v)}, {key: ("fna", v)}, None))
        elif k == "extract":
            m = EXT.match(a["title"])
            file, n = m.group(1), int(m.group(3) or 0)
            new = "file://" + urllib.parse.quote(os.path.join(self.dir, file))
            dc = ed.get("documentChanges") or []
            un = lambda u: urllib.parse.unquote(u)
            if ed.get("changes") or len(dc) != 3 or dc[0].get("kind") != "create" or un(dc[0].get("uri")) != un(new) or (dc[0].get("options") or {}).get("overwrite") or "edits" not in dc[1] or un(dc[1]["textDocument"]["uri"]) != un(new) or un(dc[2]["textDocument"]["uri"]) != un(uri):
                return self.bad(x, what, " does not create %s and edit both files: %s" % (new, ed))
            if "/" in file or os.path.lexists(os.path.join(self.dir, file)): return self.bad(x, what, " overwrites a file")
            content = apply_edits("", dc[1]["edits"])
            r = self.edit(x, dc[2]["edits"], what)
            if content is None or not r: return self.bad(x, what, " has bad edits: %s" % ed)
            t2, r = r
            ns = [n for n in same_range(x, r) if is_expr(n)]
            near = [n for n, _ in all_nodes(x.tree) if n[0] in ("Binding",) and n[1][0] <= at <= to <= n[1][1]]
            if not ns or not (r[0] <= at <= to <= r[1] or near): return self.bad(x, what, " extracts no expression there: %s" % ed)
            self.todo.append((x, what, k, t2, {}, r, (file, content, n)))
    def judge(self, name):
        c = self.c
        par = batch(self.hexe, [{"s": hx(t[3]), "m": "tdv"} for t in self.todo])
        files = batch(self.hexe, [{"s": hx(t[6][1] if t[6] else "1"), "m": "tdv"} for t in self.todo])
        recs, who = [], []
        for (x, what, k, t2, sb, sa, ext), r, f in zip(self.todo, par, files):
            acts = c.extra.setdefault("actions", {}); acts[k] = acts.get(k, 0) + 1
            yields = "%s yields %r%s" % (what, t2, " and %r" % ext[1] if ext else "")
            if "crash" in r or r.get("t") is None or "crash" in f or f.get("t") is None:
                self.bad(x, yields, ", which is no program"); continue
            old, now = list(x.bad), errors(r) + (errors(f) if ext else [])
            for e in now:
                if e in old: old.remove(e)
                elif k != "add" and e == "sema-undefined-variable" and e in x.bad: pass
                else: self.bad(x, yields, " with the error %s" % e); break
            else:
                if ext:
                    file, content, n = ext
                    src = content.encode()
                    top = [m for m in [f["t"]] if m] if is_expr(f["t"]) else exprs(f["t"])
                    formals, body = [], top[0]
                    if n:
                        fs = [g for A in kids(body, "LambdaArg") for F in kids(A, "Formals") for g in kids(F, "Formal")] if body[0] == "ExprLambda" else []
                        formals = [unhx(i[2]) for g in fs for i in kids(g, "Identifier")]
                        if len(formals) != n or len(fs) != n or any(is_expr(e) for g in fs for e in g[3] if e):
                            self.bad(x, yields, ", which is no function of %d parameters" % n); continue
                        body = [e for e in body[3] if e and is_expr(e)][0]
                    # the call begins where the expression did, after what separates it
                    b = sa[0]
                    while t2.encode()[b:b + 1] in (b"(", b" "): b += 1
                    sa = {("ExprCall", b): ("inl", file, formals, Ast(src).expr(body))}
                recs.append({"before": Ast(x.src, special=sb).expr(x.tree), "after": Ast(t2.encode(), special=sa).expr(r["t"])})
                who.append((x, what, yields))
        self.todo = []
        if not recs: return
        f = os.path.join(c.run, name + ".ndjson")
        with open(f, "w") as o:
            for r in recs: o.write(enc(json.dumps(r, ensure_ascii=False)) + "\n")
        tl = c.tlc("Refactored", invariants=["Check"], name=name, env={"RECORDS": f}, post="All")
        for k in tl.cases:
            x, what, yields = who[k["l"] - 1]
            self.bad(x, yields, ", where names mean something else")
        for x, what, yields in who: c.sample({"action": what}, 12)

def replay(c, texts, exe, hexe, dir, name):
    docs = ask(exe, [x.doc for x in texts])
    j = Judge(c, hexe, dir)
    for x, d in zip(texts, docs):
        c.validated += 1
        if d.dead:
            c.violation("asking for code actions in %r: %s" % (x.text, d.dead), {"text": x.text}); continue
        if [e for e in x.bad if e != "sema-undefined-variable"]: continue
        seen = set()
        for (o, o2), r in zip(x.offs, d.replies):
            if "error" in r: continue
            for a in r.get("result") or []:
                key = (a["title"], json.dumps(a.get("edit"), sort_keys=True))
                if not kind(a["title"]) or key in seen: continue
                seen.add(key)
                j.take(x, d.uri, a, len(x.text[:o].encode()), len(x.text[:o2].encode()), "%r at %d%s in %r" % (a["title"], o, "" if o == o2 else "-%d" % o2, x.text))
    j.judge(name)

def run(c):
    exe, hexe = c.build("nixd", "nixf_h")
    rnd = random.Random(c.seed)
    dir = os.path.join(c.run, "files dir")
    os.makedirs(dir, exist_ok=True)
    for n in ("a", "a-1", "a-2", "y", "extracted-attrs", "b", "_"): open(os.path.join(dir, n + ".nix"), "w").close()
    def go(texts, name, grid=.1):
        texts = list(dict.fromkeys(texts))
        par = batch(hexe, [{"s": hx(t), "m": "tdv"} for t in texts])
        replay(c, [Text(t, r, grid == 1 or rnd.random() < grid, "file://" + urllib.parse.quote("%s/%s-%d.nix" % (dir, name, i))) for i, (t, r) in enumerate(zip(texts, par)) if "crash" not in r], exe, hexe, dir, name)
    go(ODDS + BROKEN, "odd", 1)
    go(["[ (%s) ]" % t for t in ODDS] + ["x: with y; { z = %s; }" % t for t in ODDS] + ["import: %s" % t for t in ODDS], "nested", 0)
    r = c.tlc("Rescope", dict(Depth=c.pick(3, 4), Omit="{}"), invariants=["Keeps", "Emit"], name="rescope", timeout=1800)
    ks = [k["t"] for k in r.cases]
    go([layout(t, rnd) for t in rnd.sample(ks, min(len(ks), c.pick(700, 60000)))], "rescope_edits")
    # every side condition is needed
    for o in ("nested", "source", "with", "import", "both"):
        if not c.tlc("Rescope", dict(Depth=3, Omit='{"%s"}' % o), invariants=["Keeps"], name="without_" + o, may_fail=True, timeout=1800).violated:
            raise Inconclusive("the specification does not need the condition %r" % o)
    forms = ["let", "with", "fn", "formals", "at", "app", "rec", "set", "list", "paren", "op", "select", "if"]
    ks = scope.programs(c, "programs", sim=c.pick(400, 20000), limit=c.pick(500, 10**6), rnd=rnd, Budget=4, VarNames=S(["a", "b", "c"]), Forms=S(forms))
    go([scope.Prog(k, rnd).text for k in ks], "programs_edits")
    ks = scope.programs(c, "withs", sim=c.pick(300, 20000), limit=c.pick(350, 10**6), rnd=rnd, Budget=3, VarNames=S(["a", "c"]), Forms=S(["with", "formals", "let", "set", "list"]))
    go([scope.Prog(k, rnd).text for k in ks], "withs_edits")
    r = c.tlc("Grammar", dict(Budget=14, Start='"E"', Omit=S(["oldlet_operand"])), invariants=["TypeOK", "Balanced", "Emit"], name="grammar", simulate=c.pick(120, 20000), depth=1200, workers=1)
    go([text_of(k["text"], rnd if rnd.random() < .5 else None) for k in r.cases], "grammar_edits")
    for k in ("let", "add", "extract"):
        if not c.extra.get("actions", {}).get(k): raise Inconclusive("no %s action was ever offered" % k)

if __name__ == "__main__":
    main(run, "C17")
