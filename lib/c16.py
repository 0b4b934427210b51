"""C16: JSON converted to Nix denotes the same value."""
from common import *
from lspbatch import *
from fractions import Fraction
import random

TITLE = "Convert JSON to Nix"
CTX = [("", ""), ("{ a = ", "; }"), ("[ ", " ]"), ("f ", ""), ("é𝄞 ", " # é"), ("{\n  x =\n", "\n;\n}"), ("let x = [", "]; in x"), ("{ broken = = ", " ) }"), ("''${", "}''"), ("1 # ", "\n")]
T = lambda s: json.dumps(s, ensure_ascii=False)
def tla(s): return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"').replace("\t", "\\t").replace("\n", "\\n").replace("\r", "\\r")
def rec(**k): return "[" + ", ".join("%s |-> %s" % x for x in k.items()) + "]"
def tset(xs): return "{" + ", ".join(xs) + "}"
def atom(t, v): return rec(t=tla(t), v="<<" + ", ".join(tla(x) for x in v) + ">>")

# text, value (a character or two per piece), legal in JSON; NUL stands for itself by name, TLA+ strings have none
PIECES = [("a", "a"), ('\\"', '"'), ("\\\\", "\\"), ("\\/", "/"), ("\\n", "\n"), ("\\r", "\r"), ("\\t", "\t"), ("\\b", "<BS>"), ("\\u0041", "A"), ("\\u00e9", "é"), ("\\ud834\\udd1e", "𝄞"), ("\\u0024", "$"),
          ("$", "$"), ("{", "{"), ("}", "}"), ("'", "'"), ("é", "é"), ("𝄞", "𝄞"), (" ", " "), ("\\u0000", "<NUL>"), ("\\u001b", "<ESC>"), ("\\u0022", '"'), ("\\u005c", "\\"), ("\\u000a", "\n")]
BADP = ["\t", "\n", "\\x", "\\u12", "\\'", "\\u00g0", "\\U0041"]
NAMED = {"<NUL>": "\0", "<BS>": "\b", "<ESC>": "\x1b"}
def spieces(some=None, bad=True):
    ps = [p for p in PIECES if some is None or p[0] in some]
    return tset([rec(t=tla(t), v="<<%s>>" % tla(v), ok="TRUE", c='"x"') for t, v in ps] + ([rec(t=tla(t), v="<<>>", ok="FALSE", c='"x"') for t in BADP] if bad else []))

def num(t):
    """value of a number: exact, and as a double"""
    try: d = float(t)
    except (ValueError, OverflowError): return None
    return (Fraction(t) if len(t) < 400 and abs(d) != float("inf") and d != 0 else Fraction(0), d)

class Bad(Exception): pass
INT, FLT = r"[0-9]+", r"(([1-9][0-9]*\.[0-9]*)|(0?\.[0-9]+))([Ee][+-]?[0-9]+)?"
def nixval(n, txt):
    """The value denoted by a tree of the real parser: literals of data only."""
    k, r, x, ch = n
    ch = [y for y in ch if y and y[0] != "Misc"]
    src = lambda m: txt[m[1][0]:m[1][1]].decode()
    if k == "ExprParen": return nixval(ch[0], txt)
    if k == "ExprInt":
        if not re.fullmatch(INT, src(n)) or int(src(n)) >= 2**63: raise Bad("%s is no integer of Nix" % src(n))
        return ("num", Fraction(src(n)))
    if k == "ExprFloat":
        if not re.fullmatch(FLT, src(n)): raise Bad("%s is no float of Nix" % src(n))
        if float(src(n)) == float("inf"): raise Bad("%s is no finite number" % src(n))
        return ("num", Fraction(float(src(n))))
    if k == "ExprUnaryOp" and x == "-":
        v = nixval(ch[-1], txt)
        if v[0] != "num": raise Bad("negation of " + v[0])
        return ("num", -v[1])
    if k == "ExprBinOp" and x == "-":
        vs = [nixval(y, txt) for y in ch if y[0] != "Op"]
        return ("num", vs[0][1] - vs[1][1])
    if k == "ExprVar":
        v = unhx(x)
        if v not in ("null", "true", "false"): raise Bad("refers to " + v)
        return (v,)
    if k == "ExprString":
        s = ""
        for f in ch[0][2] if ch else []:
            if f[0] != "s": raise Bad("interpolation")
            s += unhx(f[1])
        if "\0" in s: raise Bad("NUL in a string")
        return ("str", s)
    if k == "ExprList":
        return ("arr", tuple(nixval(y, txt) for y in ch))
    if k == "ExprAttrs":
        if x: raise Bad("rec")
        o = {}
        for b in ch[0][3] if ch else []:
            if b[0] != "Binding": raise Bad(b[0])
            p, e = [y for y in b[3] if y and y[0] != "Misc"]
            names = [y for y in p[3] if y[0] == "AttrName"]
            if len(names) != 1 or names[0][2] is None: raise Bad("path")
            key = unhx(names[0][2])
            if key in o: raise Bad("duplicate " + key)
            o[key] = nixval(e, txt)
        return ("obj", o)
    raise Bad(k)

def same(j, n):
    """JSON value of the specification = Nix value?"""
    if j[0] == "num":
        if n[0] != "num": return False
        ex, d = num(j[1])
        return n[1] == ex or (not re.fullmatch("-?[0-9]+", j[1]) or abs(ex) >= 2**63) and abs(d) != float("inf") and n[1] == Fraction(d)
    if j[0] == "str": return n[0] == "str" and n[1] == "".join(NAMED.get(x, x) for x in j[1:])
    if j[0] == "arr": return n[0] == "arr" and len(j[1]) == len(n[1]) and all(map(same, j[1], n[1]))
    if j[0] == "obj":
        o = {"".join(NAMED.get(x, x) for x in k[1:]): v for k, v in j[1]}
        return n[0] == "obj" and set(o) == set(n[1]) and all(same(o[k], n[1][k]) for k in o)
    return n == (j[0],)

def expressible(j):
    if j[0] == "num": return num(j[1]) is not None and abs(num(j[1])[1]) != float("inf")
    if j[0] == "str": return "<NUL>" not in j
    if j[0] == "arr": return all(map(expressible, j[1]))
    if j[0] == "obj": return all(expressible(k) and expressible(v) for k, v in j[1])
    return True
def depth(j): return 1 + max([depth(x) if j[0] == "arr" else depth(x[1]) for x in j[1]] or [0]) if j[0] in ("arr", "obj") else 0
def width(j): return max([len(j[1])] + [width(x) if j[0] == "arr" else width(x[1]) for x in j[1]]) if j[0] in ("arr", "obj") else 0

class Sel:
    """a selected text with the value the specification gives it ("bad": no JSON)"""
    def __init__(self, js, v, ctx):
        self.js, self.v, self.ctx = js, v, ctx
        self.text = ctx[0] + js + ctx[1]
        a, b = len(ctx[0]), len(ctx[0] + js)
        self.doc = Doc(self.text, [("textDocument/codeAction", {"range": {"start": pos(self.text, a), "end": pos(self.text, b)}, "context": {"diagnostics": []}})], tag=self)

def replay(c, sels, exe, hexe):
    docs = ask(exe, [s.doc for s in sels], chunk=100)
    todo = []
    for s, d in zip(sels, docs):
        c.validated += 1
        if d.dead:
            c.violation("selecting %r: %s" % (s.js, d.dead), {"text": s.text}); continue
        acts = [a for a in d.replies[0].get("result") or [] if a["title"] == TITLE]
        if s.v == ["bad"]:
            if acts: c.violation("a conversion of %r is offered, which is no JSON" % s.js, {"text": s.text, "action": acts}, sig=s.js)
            continue
        if not acts:
            if expressible(s.v) and s.v[0] in ("arr", "obj") and s.v[1] and depth(s.v) < 100 and width(s.v) < 10000:
                c.violation("no conversion of %r is offered" % s.js, {"text": s.text}, sig=s.js)
            continue
        ed = (acts[0].get("edit") or {}).get("changes") or {}
        t2 = apply_edits(s.text, ed.get(d.uri, [])) if list(ed) == [d.uri] and len(acts) == 1 else None
        if t2 is None or not (t2.startswith(s.ctx[0]) and t2.endswith(s.ctx[1]) and len(t2) >= len(s.ctx[0]) + len(s.ctx[1])):
            c.violation("the conversion of %r edits something else: %s" % (s.js, acts), {"text": s.text, "action": acts}); continue
        todo.append((s, t2[len(s.ctx[0]):len(t2) - len(s.ctx[1])]))
    for (s, nix), r in zip(todo, batch(hexe, [{"s": hx(t[1]), "m": "td"} for t in todo])):
        err = "parser crash" if "t" not in r else [e["n"] for e in r["d"] if e["sev"] <= 1]
        if err or r["t"] is None:
            c.violation("%r is converted to %r: %s" % (s.js, nix, err), {"text": s.text, "nix": nix}, sig=s.js); continue
        try:
            v = nixval(r["t"], nix.encode())
            if not same(s.v, v): c.violation("%r is converted to %r, which denotes %s" % (s.js, nix, v), {"text": s.text, "nix": nix}, sig=s.js)
        except Bad as e:
            c.violation("%r is converted to %r: %s" % (s.js, nix, e), {"text": s.text, "nix": nix}, sig=s.js)
        if len(s.js) > 12: c.sample({"json": s.js, "nix": nix}, 12)

def run(c):
    exe, hexe = c.build("nixd", "nixf_h")
    rnd = random.Random(c.seed)
    sels = []
    ctx = lambda: rnd.choice(CTX)
    # tokens
    chars = [("-", "-"), ("+", "+"), ("0", "0"), ("1", "d"), (".", "."), ("e", "e")]
    more = [("0", "0"), ("7", "d"), ("25", "d"), (".", "."), ("e", "e"), ("E", "e"), ("-", "-"), ("+", "+"), ("9007199254740993", "d"), ("922337203685477580", "d"), ("123456789", "d"), ("300", "d")]
    pc = lambda cs: tset([rec(t=tla(t), v="<<>>", ok="TRUE", c=tla(k)) for t, k in cs])
    nums = c.tlc("JsonLex", dict(Pieces=pc(chars), MaxLen=c.pick(5, 7), MinLen=1, Kind='"num"'), invariants=["Emit"], name="nums").cases
    good = [k for k in nums if k["ok"]]
    nums = good + rnd.sample([k for k in nums if not k["ok"]], c.pick(2500, 60000))
    nums += c.tlc("JsonLex", dict(Pieces=pc(more), MaxLen=7, MinLen=2, Kind='"num"'), invariants=["Emit"], name="bignums", simulate=c.pick(200, 20000), depth=8, workers=1).cases
    for t in ("9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1e400", "-1e400", "1e-400", "4.9e-324", "1.7976931348623157e308", "0.1", "1e30", "-1e30", "1E5", "123456789012345678901234567890", "100000000000000000000000", "0.30000000000000004", "5e-324", "-0", "-0.0", "1e22", "1e23", "1.5e300", "100000.5", "12345678.875"):
        nums.append({"t": t, "ok": True, "v": []})
    seen = set()
    for k in nums:
        if k["t"] in seen: continue
        seen.add(k["t"])
        v = ["num", k["t"]] if k["ok"] else ["bad"]
        how = rnd.randrange(3)
        js, w = [("[%s]", lambda v: ["arr", [v]]), ('{"k":%s}', lambda v: ["obj", [[["str", "k"], v]]]), ("[0, %s , -1]", lambda v: ["arr", [["num", "0"], v, ["num", "-1"]]])][how]
        sels.append(Sel(js % k["t"], w(v) if k["ok"] else ["bad"], ctx()))
    strs = c.tlc("JsonLex", dict(Pieces=spieces(), MaxLen=2, MinLen=0, Kind='"str"'), invariants=["Emit"], name="strs").cases
    strs += c.tlc("JsonLex", dict(Pieces=spieces(["$", "{", "}", '\\"', "\\\\", "'", "\\u0024", "a"], False), MaxLen=c.pick(4, 6), MinLen=3, Kind='"str"'), invariants=["Emit"], name="dollars").cases
    strs += c.tlc("JsonLex", dict(Pieces=spieces(None, False), MaxLen=10, MinLen=3, Kind='"str"'), invariants=["Emit"], name="longstrs", simulate=c.pick(100, 5000), depth=12, workers=1).cases
    for k in strs:
        v = ["str"] + k["v"]
        js, w = [("[\"%s\"]", lambda v: ["arr", [v]]), ('{"%s":"%s"}', lambda v: ["obj", [[v, v]]]), ("{\"%s\" :null}", lambda v: ["obj", [[v, ["null"]]]])][rnd.randrange(3)]
        sels.append(Sel(js.replace("%s", k["t"]), w(v) if k["ok"] else ["bad"], ctx()))
    for w in ("if", "then", "else", "assert", "with", "let", "in", "rec", "inherit", "or", "true", "null", "a-b", "a'", "-a", "'a", "1a", "a.b", "a b", "", "_", "é", "__functor", "a\u00a0b", "//", "a/b"):
        sels.append(Sel('{"%s":1}' % w, ["obj", [[["str", w], ["num", "1"]]]], ctx()))
    # structure
    S = [atom('"a"', ("str", "a")), atom('"if"', ("str", "if")), atom('""', ("str",))]
    A = S[:2] + [atom("1", ("num", "1")), atom("-2.5", ("num", "-2.5")), atom("true", ("true",)), atom("null", ("null",))]
    B = [atom(t, ("bad",)) for t in ("'a'", "a", "NaN", "tru", "/**/", "//", ";", "=")]
    S1, A1 = [S[0]], [S[0], A[2], A[5]]
    inv = ["Sound", "Unique", "Emit"]
    cases = c.tlc("JsonText", dict(Atoms=tset(A), Strings=tset(S), MaxLen=c.pick(5, 7), MinLen=2, Faults=0), invariants=inv, name="small").cases
    cases += c.tlc("JsonText", dict(Atoms=tset(A1[:2]), Strings=tset(S1), MaxLen=c.pick(9, 12), MinLen=2, Faults=0), invariants=inv, name="nested").cases
    cases += c.tlc("JsonText", dict(Atoms=tset(A1[:2] + B), Strings=tset(S1), MaxLen=c.pick(6, 8), MinLen=2, Faults=1), invariants=inv, name="faulty").cases
    cases += c.tlc("JsonText", dict(Atoms=tset(A + B), Strings=tset(S), MaxLen=40, MinLen=8, Faults=1), invariants=inv, name="long", simulate=c.pick(300, 20000), depth=42, workers=1).cases
    uniq = {json.dumps(k["toks"]): k for k in cases}
    cases = list(uniq.values())
    cases = cases if len(cases) < c.pick(9000, 10**6) else rnd.sample(cases, c.pick(9000, 10**6))
    for k in cases:
        js, prev = "", None
        for t, kind in k["toks"]:
            glue = prev is not None and prev != "punct" and kind != "punct"
            js += rnd.choice([" ", "\n", "\t", "\r\n"] if glue or prev and rnd.random() < .2 else [""]) + t
            prev = kind
        sels.append(Sel(js, k["v"], ctx()))
    # nesting and width
    for n in (5, 50, 99, 150, 1500):
        v, w = ["num", "1"], ["num", "1"]
        for _ in range(n): v, w = ["arr", [v]], ["obj", [[["str", "a"], w]]]
        if n < 900:
            sels.append(Sel("[" * n + "1" + "]" * n, v, ("", "")))
            sels.append(Sel('{"a":' * n + "1" + "}" * n, w, ("", "")))
        else:
            sels.append(Sel("[" * n, ["bad"], ("", "")))
    for n in (100, 9999, 10001):
        sels.append(Sel("[%s]" % ",".join(["-1"] * n), ["arr", [["num", "-1"]] * n], ("", "")))
        wide = ["obj", [[["str", "k%d" % i], ["null"]] for i in range(n)]]
        text = "{%s}" % ",".join('"k%d":null' % i for i in range(n))
        com = ("1 /* ", " */")      # no errors there, which take long to report
        sels.append(Sel(text, wide, com))
        sels.append(Sel('[1,%s]' % text, ["arr", [["num", "1"], wide]], com))
        sels.append(Sel('{"a":[%s]}' % ",".join(["0"] * n), ["obj", [[["str", "a"], ["arr", [["num", "0"]] * n]]]], com))
    replay(c, sels, exe, hexe)
    c.extra["no_json"] = sum(s.v == ["bad"] for s in sels)

if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    main(run, "C16")
