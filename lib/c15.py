"""C15: rewriting a string between quoting styles preserves its value."""
from common import *
from lspbatch import *
import random
from c07 import pieces

ITPS = ["${x}", '${"s"}', "${''t''}", "${ {a=1;}.a }", "${f x}"]
CTX = [("", ""), ("[ ", " ]"), ("[", "]"), ("f", ""), ("f-a'", ""), ("x:", ""), ("{a=", ";}"), ("1", ""), ("1.", ""), ("(f ", ")"), ("[''a''", "]"), ('["b"', '"c"]'), ("[", "''c'']"),
       ("x.y or ", ""), ("a+", "+b"), ("[./p", "]"), ("[<p>", "y]"), ("# c\n", "\n# d\n"), ("{ a.b = x: ", "; }"), ("''o ${", "} o''"), ('"o ${', '} o"'), ("x==", "!=y"), ("if", "then 1 else 2"),
       ("[/**/", "/**/]"), ("[(a)", "(b)]"), ("[ http://u ", "]"), ("[\t", "\r\n]"), ("é: ", ""),
       ("{ ", " = 1; }"), ("{ a.", ".b = 1; }"), ("x.", ""), ("x.y.", " or 1"), ("x ? ", ""), ("x ? a.", ".b"), ("{ inherit ", "; }"), ("{ inherit (x) ", " b; }"), ("let ", " = 1; in 2"),
       ("{ ${", "} = 1; }"), ("x.${", "}"), ("x.${", " + y}"), ("{ ${x.", "} = 1; }"), ("{ ${f ", "}.c = 1; }"), ("let inherit (x) ${", "}; in 1")]
TITLE = {"dq": "Convert to indented string", "uri": "Convert to indented string", "ind": "Convert to double-quoted string"}

def shape(n):
    if not isinstance(n, list) or len(n) < 4: return n
    if n[0] == "InterpolableParts": return ["parts"]
    return [n[0]] + [shape(x) for x in n[3] if x]

def spans(n, b, e):
    """is there a string of exactly these bytes, i.e. does the literal not merge with what stands around it?"""
    return isinstance(n, list) and len(n) > 3 and (n[0] == "ExprString" and n[1][0] == b and n[1][1] == e or any(spans(k, b, e) for k in n[3] if k))

class Lit:
    def __init__(self, q, body, ctx):
        self.q, self.body, self.ctx = q, body, ctx
        qt = {"dq": '"', "ind": "''", "uri": ""}[q]
        self.lit = qt + body + qt
        self.text = ctx[0] + self.lit + ctx[1]
        o = len(ctx[0]) + 1
        self.doc = Doc(self.text, [("textDocument/codeAction", {"range": {"start": pos(self.text, o), "end": pos(self.text, o)}, "context": {"diagnostics": []}})], tag=self)

def replay(c, lits, exe, hexe, name):
    docs = ask(exe, [x.doc for x in lits])
    par = batch(hexe, [{"s": hx(x.text), "m": "td"} for x in lits])
    recs, todo = [], []
    for x, d, r in zip(lits, docs, par):
        c.validated += 1
        if d.dead:
            c.violation("asking for code actions in %r: %s" % (x.text, d.dead), {"text": x.text}); continue
        if "t" not in r or r["t"] is None or any(e["sev"] <= 1 for e in r["d"]): continue
        if not spans(r["t"], len(x.ctx[0].encode()), len((x.ctx[0] + x.lit).encode())): continue
        acts = [a for a in d.replies[0].get("result") or [] if a["title"] in TITLE.values()]
        for a in acts:
            ed = (a.get("edit") or {}).get("changes") or {}
            t2 = apply_edits(x.text, ed.get(d.uri, [])) if list(ed) == [d.uri] else None
            what = "%r rewritten by %r" % (x.text, a["title"])
            if t2 is None:
                c.violation(what + " edits something else: %s" % ed, {"text": x.text, "action": a}); continue
            if not (t2.startswith(x.ctx[0]) and t2.endswith(x.ctx[1]) and len(t2) >= len(x.ctx[0]) + len(x.ctx[1])):
                c.violation(what + " touches other text: %r" % t2, {"text": x.text, "after": t2}); continue
            lit = t2[len(x.ctx[0]):len(t2) - len(x.ctx[1])].strip(" ")
            q2 = "dq" if lit[:1] == '"' else "ind" if lit[:2] == "''" else "?"
            if q2 == "?" or q2 == x.q:
                c.violation(what + " is %r, not the other kind of literal" % t2, {"text": x.text, "after": t2}); continue
            n = 1 if q2 == "dq" else 2
            todo.append((x, t2, what, r))
            recs.append({"q": x.q, "t": list(x.body), "q2": q2, "t2": list(lit[n:len(lit) - n])})
    if not recs: return
    after = batch(hexe, [{"s": hx(t[1]), "m": "td"} for t in todo])
    bad = {}
    for (x, t2, what, r0), r in zip(todo, after):
        if "crash" in r or "t" not in r: continue
        errs = [e["n"] for e in r["d"] if e["sev"] <= 1]
        if errs or shape(r["t"]) != shape(r0["t"]):
            bad[x] = 1
            c.violation("%s is %r, which is read differently %s" % (what, t2, errs), {"text": x.text, "after": t2}, sig=x.text)
    f = os.path.join(c.run, name + ".ndjson")
    with open(f, "w") as o:
        for r in recs: o.write(enc(json.dumps(r, ensure_ascii=False)) + "\n")
    tl = c.tlc("Rewrite", dict(Itps=pieces([list(x) for x in ITPS])), invariants=["Check"], name=name, env={"RECORDS": f}, post="All")
    for k in tl.cases:
        x, t2, what, _ = todo[k["l"] - 1]
        if x in bad: continue
        val = lambda v: "".join("".join(e[1]) for e in v)
        c.violation("%s is %r: it denotes %r instead of %r" % (what, t2, val(k["got"]), val(k["want"])), {"text": x.text, "after": t2}, sig=x.text)
    for x, t2, _, _ in todo:
        if len(x.body) > 8: c.sample({"before": x.text, "after": t2}, 12)
    c.extra["rewritten"] = c.extra.get("rewritten", 0) + len(recs)

def run(c):
    exe, hexe = c.build("nixd", "nixf_h")
    rnd = random.Random(c.seed)
    inv = ["Rewrites", "StripsBlanks", "Emit"]
    base = [["a"], [" "], ["\n"], ["'"], ["$"], ["{"], ["\\"], ["\""], ["$", "{", "x", "}"]]
    more = base + [["n"], ["r"], ["t"], ["\t"], ["\r"], ["}"], ["'", "'"], ["é"], ["𝄞"], ["#"], [" ", " "], ["\n", " ", " "], ["\\", "n"], ["'", "'", "\\", " "]] + [list(x) for x in ITPS]
    itps = pieces([list(x) for x in ITPS])
    for q in ("dq", "ind"):
        con = dict(Indented=str(q == "ind").upper(), Itps=itps)
        lits = []
        def take(r, n, ctxs):
            ks = list({"".join(k["text"]): k for k in r.cases})
            ks = ks if len(ks) <= n else rnd.sample(ks, n)
            for b in ks: lits.append(Lit(q, b, rnd.choice(CTX) if rnd.random() < ctxs else CTX[1]))
        take(c.tlc("StrLex", dict(con, Pieces=pieces(base), MaxLen=4, MinLen=0), invariants=inv, name="all" + q), c.pick(4000, 10**6), .2)
        blank = [[" "], ["\n"], ["a"], ["$", "{", "x", "}"], ["'", "'", "\\", "n"] if q == "ind" else ["\\", "n"], ["\t"]]
        take(c.tlc("StrLex", dict(con, Pieces=pieces(blank), MaxLen=c.pick(5, 7), MinLen=3), invariants=inv, name="lines" + q), c.pick(3000, 10**6), .1)
        take(c.tlc("StrLex", dict(con, Pieces=pieces(more), MaxLen=12, MinLen=5), invariants=inv, name="long" + q, simulate=c.pick(60, 5000), depth=14, workers=1), c.pick(2500, 10**6), .5)
        take(c.tlc("StrLex", dict(con, Pieces=pieces(base[:6]), MaxLen=2, MinLen=0), invariants=inv, name="ctx" + q), 40, 0)
        for b in ("", "a", "''", " a", "$", "'", "\r\na", " \r\n a", "a\r") if q == "dq" else ("", "a", " a", "\n  a\n", "$$", "\r\na", "  \r\n a\r\n", "\n a\r\n b"):
            lits += [Lit(q, b, x) for x in CTX]
        replay(c, lits, exe, hexe, "rewrites_" + q)
    URI = ["http://a", "x:y", "x:'a'", "x:a''b", "x:a'", "x:''", "x:$a", "x:a$", "x:$'", "a:b?c=%20$${d"]
    replay(c, [Lit("uri", u, x) for u in URI for x in [("", ""), ("[ ", " ]"), ("[", "]"), ("{a=", ";}"), ("(", ")"), ("a ", " b")]], exe, hexe, "rewrites_uri")

if __name__ == "__main__":
    main(run, "C15")
