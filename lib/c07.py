"""C07: tokens, strings and paths are read as Nix reads them."""
from common import *
from sexpr import KIND, EX, CH
import random

def q(x):
    return '"' + x.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r") + '"'
def chars(xs):
    return "{" + ", ".join(q(x) for x in xs) + "}"

def tokens(c, exe, cases):
    todo = {}
    for k in cases:
        todo.setdefault("".join(k["s"]), k)
    texts = list(todo)
    res = batch(exe, [{"s": hx(t)} for t in texts])
    for t, r in zip(texts, res):
        if "skipped" in r: continue
        c.validated += 1
        if "crash" in r:
            c.violation("lexing %r died: %s" % (t, r["crash"]), {"text": t}, sig=t)
            continue
        want = todo[t]["t"]
        got = [x[:3] for x in r["l"]]
        if got != want:
            c.violation("%r lexed as %s, Nix reads %s" % (t, got, want), {"text": t, "got": got, "want": want}, sig=t)
        if len(want) > 2: c.sample({"text": t, "tokens": want}, 4)

def pieces(ps):
    return "{" + ", ".join("<<" + ", ".join(q(x) for x in p) + ">>" for p in ps) + "}"

def strings(c, exe, cases, indented):
    qt = "''" if indented else '"'
    todo = {}
    for k in cases:
        todo.setdefault(qt + "".join(k["text"]) + qt, k)
    texts = list(todo)
    # the literal alone, and followed by another token
    res = batch(exe, [{"s": hx(t), "m": "td"} for t in texts] + [{"s": hx("[ " + t + "y ]"), "m": "td"} for t in texts])
    for n, (t, r) in enumerate(zip(texts + texts, res)):
        if "skipped" in r: continue
        c.validated += 1
        if "crash" in r:
            c.violation("parsing %r died: %s" % (t, r["crash"]), {"text": t}, sig=t)
            continue
        errs = [d["n"] for d in r["d"]]
        node = r["t"]
        if n >= len(texts):
            node = node[CH][0] if node and len(node[CH]) == 2 else None
        if errs or not node or node[KIND] != "ExprString":
            c.violation("the string literal %r is not read as one: %s" % (t, errs), {"text": t, "diags": errs}, sig=t)
            continue
        # how the literal parts are cut up is the implementation's business
        got = []
        for p in node[CH][0][EX]:
            if p[0] != "s": got.append(["i"])
            elif got and got[-1][0] == "s": got[-1][1] += p[1]
            else: got.append(["s", p[1]])
        got = [["s", unhx(p[1])] if p[0] == "s" else p for p in got]
        want = [["s", p[1]] if p[0] == "s" else ["i"] for p in todo[t]["parts"]]
        if got != want:
            c.violation("%r denotes %s for Nix, read as %s" % (t, want, got), {"text": t, "got": got, "want": want}, sig=t)
        else:
            # interpolations stand where they are written
            off = (0 if n < len(texts) else 2) + len(qt)
            gi = [p[1] for p in node[CH][0][EX] if p[0] == "i"]
            wi = [off + len("".join(todo[t]["text"][:p[1] - 1]).encode()) for p in todo[t]["parts"] if p[0] == "i"]
            if gi != wi:
                c.violation("interpolations of %r found at %s, written at %s" % (t, gi, wi), {"text": t}, sig=t)
        if len(want) > 2: c.sample({"text": t, "parts": want}, 10)

def run(c):
    lex, exe = c.build("lex_h", "nixf_h")
    rnd = random.Random(c.seed)
    inv = ["Ordered", "Emit"]
    full = list("ao15e_-+./~<>:'?\"*#$!={}()[];,@|& \n\r\\")
    r = c.tlc("Lex", dict(Alphabet=chars(full), MaxLen=c.pick(2, 3), MinLen=0), invariants=inv, name="all")
    tokens(c, lex, r.cases)
    # the characters of paths, numbers and identifiers, deeper
    for n, al, d in (("paths", "a1./~-$", c.pick(5, 6)), ("numbers", "015.eE+-a", c.pick(4, 5)), ("uris", "a1:/+.?'@", c.pick(4, 5)), ("spath", "<a/>.~", c.pick(5, 6)),
                     ("comments", "/*#\na\r", c.pick(5, 7)), ("operators", "<>=|&!-+/.", c.pick(4, 5)), ("itp", "a/.${~1", c.pick(5, 6))):
        r = c.tlc("Lex", dict(Alphabet=chars(al), MaxLen=d, MinLen=4), invariants=inv, name=n)
        tokens(c, lex, r.cases)
    r = c.tlc("Lex", dict(Alphabet=chars(full + list("inthelsrcwdub")), MaxLen=12, MinLen=12), invariants=inv, name="long", simulate=c.pick(60, 4000), depth=14, workers=1)
    tokens(c, lex, r.cases)
    kw = ["if", "then", "else", "assert", "with", "let", "in", "rec", "inherit", "or"]
    # keywords and their neighbours: longer words are identifiers
    r = c.tlc("Soup", dict(Alphabet=chars(kw + ["a", "'", "-", "1", "_", " "]), MaxLen=c.pick(2, 3), MinLen=1), invariants=["Emit"], name="words")
    texts = {}
    for s in r.cases:
        t = "".join(s)
        want, k = [], 0
        while k < len(t):
            m = re.compile(r"[a-zA-Z_][a-zA-Z0-9_'-]*|\d+|''|.").match(t, k)
            if m[0] != " ":
                w = m[0]
                want.append([w if w in kw or w in ("-", "''") else "unknown" if w == "'" else "int" if w.isdigit() else "id", k, len(w)])
                if w == "''": break
            k = m.end()
        texts[t] = {"s": list(t), "t": want}
    tokens(c, lex, list(texts.values()))
    # string contents
    P = [["a"], ["n"], ["\\"], ["\""], ["$"], ["{"], ["}"], ["'"], ["\n"], ["$", "{", "x", "}"], [" "], ["'", "'"], ["t"], ["r"], ["\t"], ["#"], ["é"], ["\r"]]
    for ind in (False, True):
        con = dict(Indented=str(ind).upper(), Itps='{<<"$", "{", "x", "}">>}')
        r = c.tlc("StrLex", dict(con, Pieces=pieces(P), MaxLen=c.pick(3, 4), MinLen=0), invariants=["Rewrites", "StripsBlanks", "Emit"], name="str%d" % ind)
        strings(c, exe, r.cases, ind)
        hard = [["$"], ["{"], ["\\"], ["'"], ["\"" if not ind else "n"], ["$", "{", "x", "}"]]
        r = c.tlc("StrLex", dict(con, Pieces=pieces(hard), MaxLen=c.pick(6, 7), MinLen=4), invariants=["Rewrites", "StripsBlanks", "Emit"], name="hard%d" % ind)
        strings(c, exe, r.cases, ind)
        r = c.tlc("StrLex", dict(con, Pieces=pieces(P), MaxLen=14, MinLen=8), invariants=["Rewrites", "StripsBlanks", "Emit"], name="longstr%d" % ind, simulate=c.pick(120, 10000), depth=16, workers=1)
        strings(c, exe, r.cases, ind)
    numbers(c, exe)

def numbers(c, exe):
    """The values of number literals."""
    ints = [str(x) for k in range(64) for x in (2**k - 1, 2**k) if x < 2**63] + ["007", "9223372036854775807", "0"]
    big = ["9223372036854775808", "99999999999999999999999"]
    floats = ["%s.%s%s" % (a, b, e) for a in ("1", "123456789", "9", "16777217", "10000000000000000000000") for b in ("", "0", "1", "5", "123456789012345", "000001")
              for e in ("", "e1", "E+10", "e-7", "e280", "e-300")] + [".5", ".1e3", "0.1", "0.30000000000000004"]
    res = batch(exe, [{"s": hx(t), "m": "td"} for t in ints + big + floats])
    for t, r in zip(ints + big + floats, res):
        c.validated += 1
        if "crash" in r or r["t"] is None:
            c.violation("reading the number %s died" % t, {"text": t}, sig=t); continue
        if t in big:
            if not any(d["sev"] <= 1 for d in r["d"]):
                c.violation("integer %s out of range is not reported" % t, {"text": t}, sig=t)
        elif r["t"][KIND] != ("ExprInt" if t in ints else "ExprFloat") or r["t"][EX] != (int(t) if t in ints else float(t)) or r["d"]:
            c.violation("number %s read as %s" % (t, r["t"]), {"text": t}, sig=t)

if __name__ == "__main__":
    main(run, "C07")
