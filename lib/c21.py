"""C21: outline, folding ranges, semantic tokens and links."""
from common import *
from lspbatch import *
from nixast import kids, exprs, is_expr, errors, all_nodes
from c06 import text_of, S
from c14 import layout
import scope, random, urllib.parse

W = 100000
class Tree:
    """The real parser's tree as the nodes of spec/Outline.tla."""
    def __init__(self, text, dir):
        self.text, self.dir, self.src = text, dir, text.encode("utf-8", "surrogatepass")
        # LSP position of every byte offset
        self.at, l, u = [], 0, 0
        for ch in text:
            b = len(ch.encode("utf-8", "surrogatepass"))
            self.at += [l * W + u] * b
            if ch == "\n": l, u = l + 1, 0
            else: u += utf16(ch)
        self.at.append(l * W + u)
    def node(self, N, k, **kw):
        d = {"k": k, "n": "", "b": self.at[N[1][0]], "e": self.at[N[1][1]], "lit": True, "r": False, "c": [], "p": [], "s": [], "bs": [], "t": ""}
        d.update(kw)
        return d
    def name(self, a):
        k = "id" if kids(a, "Identifier") else "dyn" if kids(a, "Interpolation") else "str"
        st = a[2] is not None
        return {"k": k, "st": st, "n": unhx(a[2]) if st else "", "b": self.at[a[1][0]], "e": self.at[a[1][1]],
                "c": [self.expr(e) for e in (exprs(a) if k != "str" else [e for s in kids(a, "ExprString") for e in exprs(s)])]}
    def path(self, n): return [self.name(a) for p in kids(n, "AttrPath") for a in kids(p, "AttrName")]
    def sources(self, n):
        """what nothing is inherited from"""
        return [self.expr(e) for B in kids(n, "Binds") for b in kids(B, "Inherit") if not kids(b, "AttrName") for e in b[3] if e and is_expr(e)]
    def binds(self, n):
        out = []
        for b in (kids(n, "Binds") or [[None, None, None, []]])[0][3]:
            if b is None: continue
            es = [c for c in b[3] if c and is_expr(c)]
            if b[0] == "Binding": out.append({"p": self.path(b), "v": self.expr(es[0])})
            else:
                for a in kids(b, "AttrName"):
                    nm = self.name(a)
                    out.append({"p": [nm], "v": self.node(a, "from", c=[self.expr(es[0])]) if es else self.node(a, "inh", n=nm["n"])})
        return out
    def string(self, n):
        """(literal?, content) of a string or path"""
        ps = [p for I in kids(n, "InterpolableParts") for p in I[2]]
        return all(p[0] == "s" for p in ps), "".join(unhx(p[1]) for p in ps if p[0] == "s")
    def target(self, t):
        """the file a path denotes"""
        f = os.path.realpath(os.path.join(self.dir, t))
        if os.path.isdir(f): f = os.path.realpath(os.path.join(f, "default.nix"))
        return f if os.path.exists(f) else ""
    def expr(self, n):
        k, c = n[0], [c for c in n[3] if c and is_expr(c)]
        E = lambda: [self.expr(x) for x in exprs(n)]
        if k == "ExprVar": return self.node(n, "var", n=unhx(n[2]))
        if k == "ExprString":
            lit, t = self.string(n)
            return self.node(n, "str", n=t, lit=lit, c=E())
        if k == "ExprInt": return self.node(n, "num", n=str(n[2]))
        if k == "ExprFloat": return self.node(n, "num", n="%f" % float(n[2]))
        if k == "ExprPath":
            lit, t = self.string(n)
            return self.node(n, "path", lit=lit, c=E(), t=self.target(t) if lit else "")
        if k == "ExprList": return self.node(n, "list", c=E())
        if k == "ExprAttrs": return self.node(n, "set", r=bool(n[2]), bs=self.binds(n), c=self.sources(n))
        if k == "ExprLet":
            at = kids(n, "ExprAttrs")[:1]
            first = at[0] if at and (len(c) > 1 or at[0] is not c[-1]) else None
            at = dict(self.expr(first), r=True) if first else self.node(n, "set", r=True, e=self.at[n[1][0]])
            return self.node(n, "let", c=[at, self.expr(c[-1])])
        if k == "ExprLambda":
            arg = kids(n, "LambdaArg")[0]
            ids, fs = kids(arg, "Identifier"), [f for F in kids(arg, "Formals") for f in kids(F, "Formal")]
            P = lambda i, t: {"n": unhx(i[2]), "b": self.at[i[1][0]], "e": self.at[i[1][1]], "t": t}
            sel = ids[0] if ids else kids(arg, "Formals")[0]
            return self.node(n, "fn", n=unhx(ids[0][2]) if ids else "(anonymous lambda)", p=[{"b": self.at[sel[1][0]], "e": self.at[sel[1][1]]}],
                             s=[P(i, 11) for i in ids] + [P(i, 12) for f in fs for i in kids(f, "Identifier")],
                             c=[self.expr(c[0])] + [self.expr(e) for f in fs for e in f[3] if e and is_expr(e)])
        if k == "ExprSelect": return self.node(n, "sel", c=[self.expr(x) for x in c], p=self.path(n))
        if k == "ExprOpHasAttr": return self.node(n, "has", c=[self.expr(c[0])], p=self.path(n))
        if k == "ExprWith": return self.node(n, "with", c=[self.expr(x) for x in c])
        if k == "ExprIf": return self.node(n, "if", c=[self.expr(x) for x in c])
        if k == "ExprLegacyLet" and not kids(n, "ExprAttrs"): return self.node(n, "x", c=[self.node(n, "set", r=True, bs=self.binds(n), c=self.sources(n))])
        return self.node(n, "x", c=E())
    def incomplete(self, n):
        return any(m[0] == "ExprWith" and len([c for c in m[3] if c and is_expr(c)]) != 2 for m, _ in all_nodes(n))

REQS = [("textDocument/documentSymbol", {}), ("textDocument/foldingRange", {}), ("textDocument/semanticTokens/full", {}), ("textDocument/documentLink", {})]
def P(p): return p["line"] * W + p["character"]
def syms(ss): return [{"n": s["name"], "k": s["kind"], "b": P(s["range"]["start"]), "e": P(s["range"]["end"]), "sb": P(s["selectionRange"]["start"]), "se": P(s["selectionRange"]["end"]), "kids": syms(s.get("children") or [])} for s in ss]
def toks(data):
    out, l, c = [], 0, 0
    for i in range(0, len(data), 5):
        dl, dc, n, t, m = data[i:i + 5]
        l, c = l + dl, (c if dl == 0 else 0) + dc
        out.append({"b": l * W + c, "e": l * W + c + n, "t": t, "m": m})
    return out

def judge(c, texts, exe, hexe, dir, name):
    texts = list(dict.fromkeys(texts))
    par = batch(hexe, [{"s": hx(t), "m": "tdv"} for t in texts])
    docs = [Doc(t, REQS, tag=r, uri="file://" + urllib.parse.quote("%s/%s-%d.nix" % (dir, name, i))) for i, (t, r) in enumerate(zip(texts, par)) if "crash" not in r]
    recs, who = [], []
    for d in ask(exe, docs, args=["--semantic-tokens=true"]):
        c.validated += 1
        if d.dead:
            c.violation("asking about %r: %s" % (d.text, d.dead), {"text": d.text}); continue
        if any("result" not in r for r in d.replies):
            if d.tag.get("t") is None: continue      # no tree, no answer
            c.violation("no answer about %r: %s" % (d.text, d.replies), {"text": d.text}); continue
        sy, fo, to, li = (r["result"] for r in d.replies)
        tr = Tree(d.text, dir)
        t = d.tag.get("t")
        valid = t is not None and not [e for e in errors(d.tag) if e != "sema-undefined-variable"] and not tr.incomplete(t)
        rec = {"lens": [utf16(x) for x in d.text.split("\n")], "valid": valid, "syms": syms(sy), "toks": toks(to["data"]),
               "folds": [[f["startLine"] * W + f.get("startCharacter", 0), f["endLine"] * W + f.get("endCharacter", 0)] for f in fo],
               "links": [{"b": P(x["range"]["start"]), "e": P(x["range"]["end"]), "t": urllib.parse.unquote(x["target"])[7:]} for x in li],
               "tree": tr.expr(t) if valid else 0}
        recs.append(rec)
        who.append((d, rec))
        for k in ("syms", "toks", "folds", "links"):
            c.extra.setdefault("items", {}); c.extra["items"][k] = c.extra["items"].get(k, 0) + len(rec[k])
        if valid: c.extra["valid"] = c.extra.get("valid", 0) + 1
    f = os.path.join(c.run, name + ".ndjson")
    with open(f, "w") as o:
        for r in recs: o.write(re.sub(r"[^\x00-\x7f]", lambda m: "%%%x%%" % ord(m[0]), json.dumps(r, ensure_ascii=False)) + "\n")
    r = c.tlc("Outline", invariants=["Check"], name=name, env={"RECORDS": f}, post="Done")
    for k in r.cases:
        d, rec = who[k["l"] - 1]
        w = k["p"].rstrip("!")
        c.violation("the %s of %r %s: %s" % ({"syms": "outline", "toks": "tokens", "folds": "folding ranges", "links": "links"}[w], d.text,
                    "are not those of the program" if k["p"].endswith("!") else "are not sound", json.dumps(rec[w], ensure_ascii=False)[:800]), {"text": d.text, "reply": rec[w], "expected": k["x"][:4000]}, sig=d.text + k["p"])
    for d, rec in who: c.sample({"text": d.text, "syms": len(rec["syms"]), "toks": len(rec["toks"]), "folds": len(rec["folds"]), "links": len(rec["links"])}, 12)

ODD = r'''{ a.b = 1; c = 2; a.d = 3; }|{ inherit (x) a; inherit b; }|{ inherit (x y) a "b" c; }|x: { a ? y }@z: rec { a = ''"''; }|"a${b}c"|"a${"b${c}"}"|{ a
.b = [
 x ]; a.c = {
}; }|{ a = x."y".${z} or w ? v; "q" = null; }|{ ${x} = 1; "a${y}" = 2; ${"lit"} = 3; "s" = 4; }|let { a = 1; body = a; }|{ "a
b" = 1; "c" = x."é
"; }|{ a = { b = 1; }; a = { c = 2; }; a.e.f=1;}|with x; [ y (-1) 1.5 http://x.y ]|x: "é" + x|'' é ${x} '' + ''
  é
  ${x}
''|{ é = 1; }|"é" + "𝒳"|/*𝒳*/ a|[ "𝒳" a /*é*/ b ]|{ "𝒳" = x."𝒳"; y = "𝒳"; }|{ a = { b.c = 1; }; x = 3; a.b.d = 2; }|{ a.b = 1; x = 3; a = rec { c = d; d = 1; }; }|rec { a = rec { c = d; }; b = 1; a.d = 2; }|let a.b = 1; c = [ a ]; a.d = 2; in c|{ ${x}.a.b = 1; ${x}.c = 2; }|{ a.${x} = y: y; a.${z} = 1; }|{ a.${x}.b = 1; a.c = 2; }|{ a = 1; } // { b = 2; }|x: y: { z, w ? x, ... }: [ x y z w v ]|a@{ b, c ? b, d ? a }: e|{ b }@a: a|{ }: 1|{ ... }: 1|{
  a ?
    [ 1
      2 ],
  b
}: ''
 x ${ [
   b ] }
''|x ? a.b|x ? "a"|x ? "a${b}"|x ? ${a}|x ? ${"a"}|x.${"a"}|x."a${b}"|x.a.b or c|x.a or (y: y)|if a then b else c|if
 a then [ ] else { }|assert a; b|assert
 a; b|-a|!a|a + b|(a)|(
 a)|a b c|a
 b
 c|with a; b|with a;
 b|with a; with b; c|with a; let b = 1; in [ b c ]|let a = 1; in
 a|let
 a = 1; in a|let in 1|let in { }|let a = { }; in { b = a; }|let
  in
  { }|true|false|null|[ true false null ]|{ true = true; inherit null; }|let true = 1; in true|map|[ map import builtins.x throw __add ]|let map = 1; in map|with a; map|x: x.y|1|1.5|0001|1.0e3|.5|./a|./a.nix|./dir|./none|./dir/default.nix|./dir/../a.nix|[ ./a.nix ./a.nix ./link.nix ]|./a.nix + ./b${x}.nix|{ a ? ./a.nix }: "${./a.nix}"|<nixpkgs>|~/a|a.${./a.nix}|{ ${./a.nix} = ./a.nix; }|"./a.nix"|import ./a.nix { }|./sub dir.nix|../a.nix|{ inherit (import ./a.nix) b; }|{
  # c
  a = 1;
}|{
}|[
]|"
"|''
''|x:
 y|x: [
 y ]|f {
 a = [
  1 ]; } [
 2 ]|{ a = x: {
 }; b = ''
 ''; }'''
BROKEN = ["{ a. = 1; }", "{ a = ; }", "{ a", "{", "[", "(", "x:", "{ a, ", "{ a }: ", "{ a ? }: a", "let", "let a", "let a = 1", "let a = 1; in", "with", "with a", "with a;", "with ; a", "if", "if a", "if a then", "if a then b else", "assert a", "a.", "a.b.", "a..b", "a.${", "a.\"", "a ?", "a or", "\"", "''", "\"${", "\"${a", "\"${a}", "''${\n", "{ inherit", "{ inherit (", "{ inherit (a", "{ inherit (a) }", "{ inherit; }", "{ inherit (a) ${}; }",
          "{ a = 1; a = 2; }", "{ a = { b = 1; }; a.b = 2; }", "{ a.b = 1; a = x; }", "{ a = x; a.b = 1; }", "{ a, a }: a", "a@{ a }: a", "rec", "rec {", "{ ${} = 1; }", "{ ${\n} = 1; }", "1 +", "+ 1", "-", "!", "a b (", "[ 1\n", "{\n a = [\n", "x:\n", "let\n a = \"\n", "./", "./a/", "<a", "http:", "é", "{ é", "𝒳", "\"𝒳", "a 𝒳 b", "", " ", "\n", "\n\n", "# c", "/* c", ")", "}", "a }", "{ a = 1; } }", "let { a = 1; }", "let {", "{ a.b = 1; c = [; a.d = 3 }", "or", "{ or = 1; }", "x: x: ", "{ a = 1 b = 2; }", "a.b.c.\nd.e", "{ a = ''\n", "{ a = \"\n b = 1; }", "99999999999999999999", "1e999", "[ 1 2", "{ a = [ ( { \n } ) ; }", "x\r\ny", "{\r\n a = 1;\r\n}", "\"a\r\nb\"", "{ \"\" = 1; }", "{ a.\"\".b = 1; }"]

def lines(text, rnd):
    """some blanks become line breaks"""
    return "".join("\n" if ch == " " and rnd.random() < .3 else ch for ch in text)

def run(c):
    exe, hexe = c.build("nixd", "nixf_h")
    rnd = random.Random(c.seed)
    dir = os.path.join(c.run, "files dir")
    os.makedirs(os.path.join(dir, "dir"), exist_ok=True)
    for n in ("a.nix", "dir/default.nix", "sub", "../a.nix"): open(os.path.join(dir, n), "w").close()
    os.path.lexists(os.path.join(dir, "link.nix")) or os.symlink("a.nix", os.path.join(dir, "link.nix"))
    odd = [t for t in re.split(r"\|(?!\n)", ODD)]
    judge(c, odd + BROKEN, exe, hexe, dir, "odd")
    judge(c, [w % t for t in odd for w in ("{ a.b = %s; c = 1; a.d = [ (%s) ]; }".replace("%s", "%s", 1).replace("(%s)", "x"), "let x = 1; in [ (%s)\n ]", "with x; {\n a = \"é${%s}\"; }", "{ y ? (%s) }: x")], exe, hexe, dir, "nested")
    cut = [t[:i] for t in rnd.sample(odd, min(len(odd), c.pick(25, 500))) for i in range(len(t))]
    judge(c, rnd.sample(cut, min(len(cut), c.pick(1000, 10**5))), exe, hexe, dir, "prefixes")
    ks = scope.programs(c, "programs", sim=c.pick(1000, 20000), limit=c.pick(1600, 40000), rnd=rnd, Budget=5)
    judge(c, [scope.Prog(k, rnd).text for k in ks], exe, hexe, dir, "scopes")
    r = c.tlc("Grammar", dict(Budget=14, Start='"E"', Omit=S(["oldlet_operand"])), invariants=["TypeOK", "Balanced", "Emit"], name="grammar", simulate=c.pick(600, 20000), depth=1200, workers=1)
    judge(c, [lines(text_of(k["text"], rnd if rnd.random() < .5 else None), rnd) for k in r.cases][:c.pick(1000, 10**6)], exe, hexe, dir, "grammars")
    # sets whose attributes come from several bindings
    r = c.tlc("Refactor", dict(MaxBinds=3, MaxOps=1, Small="FALSE"), invariants=["Same", "Unique", "Emit"], name="sets", simulate=c.pick(300, 20000), depth=9, workers=1, timeout=1800)
    judge(c, [layout(k["t"], rnd) for k in r.cases], exe, hexe, dir, "merged")
    if not all(c.extra.get("items", {}).get(k) for k in ("syms", "toks", "folds", "links")): raise Inconclusive("nothing was ever reported: %s" % c.extra)

if __name__ == "__main__":
    main(run, "C21")
