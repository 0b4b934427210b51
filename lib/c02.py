"""C02: LSP positions and byte offsets correspond exactly, in UTF-16 units."""
from common import *
from lspbatch import *
import random

def check_positions(c, exe, cases):
    rs = batch(exe, [{"s": hx(k["text"]), "grid": [g[0] for g in k["grid"]]} for k in cases])
    for k, r in zip(cases, rs):
        c.validated += 1
        t = k["text"]
        if "off" not in r:
            c.violation("positions of %r: %s" % (t, r), {"text": t}); continue
        for (p, strict, lax), (s, l) in zip(k["grid"], r["off"]):
            # inside a character both of its ends are fine when clamping
            ok = {lax} if strict != -1 or lax == -1 else {lax, lax - 4 if t.encode()[:lax].decode()[-1:] in ("𝄞", "😀") else lax}
            if s != strict: c.violation("position %s of %r is offset %d, not %d" % (p, t, s, strict), {"text": t, "pos": p}, sig=t)
            elif l not in ok: c.violation("position %s of %r is clamped to offset %d, not %s" % (p, t, l, sorted(ok)), {"text": t, "pos": p}, sig=t)
        for o, p in k["bounds"]:
            if r["pos"][o] != p: c.violation("offset %d of %r is position %s, not %s" % (o, t, r["pos"][o], p), {"text": t, "offset": o}, sig=t)
        end = k["bounds"][-1][1]
        for p in r["pos"][len(t.encode()):]:
            if p != end: c.violation("an offset past the end of %r is position %s, not %s" % (t, p, end), {"text": t}, sig=t)
        if r["len"] != utf16(t): c.violation("the length of %r is %d, not %d" % (t, r["len"], utf16(t)), {"text": t}, sig=t)

# -- every feature of the server: the same program, with and without wide characters on its lines ----
PROGS = ["let\n  x = 1; unused = 2;\n  f = { a, b ? x, ... }@all: a + b + all.c;\nin f { a = x; } + undefined + builtins.map (y: y) [ ]",
         "rec { a.b = 1; a.c = a.b; d = \"s ${a.c} \"; inherit (d) e; }",
         "with import <nixpkgs> { }; { x = [ hello ./p/q ]; y = ''\n  i ${z}\n''; } // { a = 1; a = 2; }",
         "let inherit ({ }) a b; in { q }: if a == b then (q) else throw \"m\" + abort",
         "{ x ? 1, x, y }: let z = y; in { inherit z; inherit (x) w; 'bad = ; }",
         "[ \"é𝄞\" é ''é€ ${f}'' ./é { \"𝄞\" = 1; \"𝄞\" = 2; } ]", "let a = { b = { c = 1; }; }; in a.b.c or (let d = d; in d)",
         "/* doc */\nrec { pkgs = import ./x.nix { }; o = pkgs.lib.mkIf true [ pkgs.hello ]; }"]
SPACERS = ["/*é*/", "/*𝄞*/", "/*€𝄞é*/", "/*aa*/"]
def spaced(text, rnd):
    """The text with comments after some blanks; and the map of offsets old -> new."""
    out, at = "", []
    instr = False
    for k, ch in enumerate(text):
        at.append(len(out))
        out += ch
        if ch == "\n" and rnd.random() < .8 or ch == " " and rnd.random() < .5:
            # not inside of strings: only where the number of quotes before is even, and not in '' ... ''
            if text.count('"', 0, k) % 2 == 0 and text.count("''", 0, k) % 2 == 0 and "/*" not in text[max(0, k - 8):k + 8]:
                out += rnd.choice(SPACERS)
    at.append(len(out))
    return out, at

POSM = ["textDocument/definition", "textDocument/references", "textDocument/documentHighlight", "textDocument/prepareRename", "textDocument/rename", "textDocument/completion", "textDocument/hover"]
def requests(text):
    full = {"start": pos(text, 0), "end": pos(text, len(text))}
    return [("textDocument/documentSymbol", {}), ("textDocument/foldingRange", {}), ("textDocument/documentLink", {}), ("textDocument/semanticTokens/full", {}),
            ("textDocument/inlayHint", {"range": full}), ("textDocument/codeAction", {"range": full, "context": {"diagnostics": []}})]
def at(text, o):
    p = pos(text, o)
    rq = [(m, dict({"position": p}, **({"newName": "qq"} if m.endswith("/rename") else {}), **({"context": {"includeDeclaration": True}} if m.endswith("references") else {}))) for m in POSM]
    return rq + [("textDocument/codeAction", {"range": {"start": p, "end": p}, "context": {"diagnostics": []}})]

def absolute(toks):
    """semantic tokens: absolute"""
    out, l, ch = [], 0, 0
    for i in range(0, len(toks), 5):
        dl, dc, n, ty, mod = toks[i:i + 5]
        l, ch = l + dl, (ch if dl == 0 else 0) + dc
        out.append({"start": {"line": l, "character": ch}, "end": {"line": l, "character": ch + n}, "type": ty, "mod": mod})
    return out
nowhere = []
def norm(v, text, uri, back):
    """Replies with every position replaced by the offset in the plain text; None: a position not of this text."""
    if isinstance(v, dict):
        if set(v) == {"line", "character"}:
            o = off(text, v)
            if o is None: nowhere.append(v)
            return ("no position", v) if o is None else back.get(o, ("inside", text[max(0, o - 6):o], text[o:o + 6]))
        return {(k.replace(uri, "U")): norm(x, text, uri, back) for k, x in v.items()}
    if isinstance(v, list): return [norm(x, text, uri, back) for x in v]
    if isinstance(v, str): return v.replace(uri, "U")
    return v
def ordered(v):
    if isinstance(v, list): return sorted((ordered(x) for x in v), key=lambda x: json.dumps(x, sort_keys=True, default=str))
    if isinstance(v, dict): return {k: ordered(x) for k, x in v.items()}
    return v

def folded(rs):
    return [[r["startLine"], r["endLine"]] for r in rs or []]

def features(c, exe, rnd):
    docs, pairs = [], []
    for text in PROGS:
        offs = list(range(len(text) + 1))
        offs = offs if c.thorough else sorted(rnd.sample(offs, min(len(offs), 60)))
        ref = Doc(text, requests(text) + [x for o in offs for x in at(text, o)])
        docs.append(ref)
        for _ in range(c.pick(4, 25)):
            t2, m = spaced(text, rnd)
            d = Doc(t2, requests(t2) + [x for o in offs for x in at(t2, m[o])])
            docs.append(d)
            pairs.append((ref, d, m, offs))
    ask(exe, docs, chunk=4, args=["--semantic-tokens"])
    for ref, d, m, offs in pairs:
        c.validated += 1
        if ref.dead or d.dead:
            c.violation("%r: %s" % (d.text, d.dead or ref.dead), {"text": d.text}); continue
        back = {}
        for k, o in enumerate(m): back[o] = k
        # positions right before an inserted comment belong to the blank before it
        for k, o in enumerate(m[1:]):
            if o > m[k] + 1: back.setdefault(m[k] + 1, k + 1)
        idn = {k: k for k in range(len(ref.text) + 1)}
        def cmp(what, x, y):
            if "error" in x or "error" in y:
                same = ("error" in x) == ("error" in y)
            else:
                x, y = x.get("result"), y.get("result")
                if what.endswith("foldingRange"):
                    same = folded(x) == folded(y)
                else:
                    if "semanticTokens" in what: x, y = absolute(x["data"]), absolute(y["data"])
                    x, y = ordered(norm(x, ref.text, ref.uri, idn)), ordered(norm(y, d.text, d.uri, back))
                    same = json.dumps(x, sort_keys=True) == json.dumps(y, sort_keys=True)
            if nowhere:
                c.violation("%s of %r or %r has positions %s" % (what, ref.text, d.text, nowhere[:3]), {"plain": ref.text, "wide": d.text, "request": what})
                nowhere.clear()
            if not same:
                c.violation("%s of %r is %s, but of %r it is %s (as offsets of the former)" % (what, ref.text, json.dumps(x)[:300], d.text, json.dumps(y)[:300]), {"plain": ref.text, "wide": d.text, "request": what, "reply": y})
        # edits that contain text of the program are not compared
        nreq = len(requests(""))
        for k in range(nreq):
            if ref.reqs[k][0].endswith("codeAction"):
                strip = lambda r: {"result": [{"title": a["title"], "kind": a.get("kind")} for a in r.get("result") or []]}
                cmp("codeAction of everything", strip(ref.replies[k]), strip(d.replies[k]))
            else:
                cmp(ref.reqs[k][0], ref.replies[k], d.replies[k])
        per = len(POSM) + 1
        for i, o in enumerate(offs):
            for j in range(per):
                k = nreq + i * per + j
                x, y = ref.replies[k], d.replies[k]
                if ref.reqs[k][0].endswith("codeAction"):
                    def strip(r):
                        out = []
                        for a in r.get("result") or []:
                            ch = (a.get("edit") or {}).get("changes") or {}
                            out.append({"title": a["title"], "ranges": [e["range"] for es in ch.values() for e in es]})
                        return {"result": out}
                    x, y = strip(x), strip(y)
                cmp("%s at %d" % (ref.reqs[k][0], o), x, y)
        cmp("diagnostics", {"result": ref.diags}, {"result": d.diags})

def run(c):
    h, exe = c.build("lsp_h", "nixd")
    rnd = random.Random(c.seed)
    inv = ["RoundTrip", "SameUnits", "Order", "Strict", "Clamped", "Decodes", "Emit"]
    al = lambda s: "{" + ", ".join('"%s"' % x.replace("\n", "\\n").replace("\r", "\\r") for x in s) + "}"
    r = c.tlc("Positions", dict(Alphabet=al(["a", "é", "€", "𝄞", "\n"]), MaxLen=c.pick(5, 6), MinLen=0), invariants=inv, name="all")
    check_positions(c, h, r.cases)
    r = c.tlc("Positions", dict(Alphabet=al(["a", "é", "λ", "€", "中", "𝄞", "😀", "\n", "\t", "\r"]), MaxLen=12, MinLen=5), invariants=inv, name="long", simulate=c.pick(8, 400), depth=14, workers=1)
    check_positions(c, h, r.cases)
    features(c, exe, rnd)

if __name__ == "__main__":
    main(run, "C02")
