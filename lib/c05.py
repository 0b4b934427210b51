"""C05: parsing any text terminates with a well-formed tree and located diagnostics."""
from common import *
from walk import walk_of, validate
from c06 import text_of, S
import random

# pieces of text by name (the specification only knows the names)
TOKS = ["a", "b", "or", "if", "then", "else", "let", "in", "rec", "with", "inherit", "assert", "1", "2.5", "./p", "<p>", "u:v",
        "{", "}", "(", ")", "[", "]", "${", "''", "=", ";", ":", ",", "@", "?", ".", "...", "!", "-", "+", "//", "->", "|>"]
SPECIAL = {"DQ": b'"', "BS": b"\\", "NL": b"\n", "CR": b"\r", "TAB": b"\t", "NUL": b"\0", "FF": b"\xff", "C3": b"\xc3", "EUR": "€".encode(),
           "EMOJI": "😀".encode(), "BCO": b"/*", "BCC": b"*/", "HASH": b"#", "VT": b"\x0b", "SQ": b"'", "DOLLAR": b"$", "TILDE": b"~/",
           "PLUSPATH": b"/${", "ESC": b"''\\", "ESCD": b"''$", "DDC": b"$${", "SP": b" ", "BIG": b"99999999999999999999", "EXP": b"1.5e", "ZERO": b"00.5"}
def byt(p):
    return SPECIAL.get(p) or p.encode()

def check(c, exe, texts, name):
    """texts: bytes; crash freedom, well-formedness by TLC."""
    texts = list(dict.fromkeys(texts))
    res = batch(exe, [{"s": t.hex(), "m": "tdpva"} for t in texts])
    walks = []
    for i, (t, r) in enumerate(zip(texts, res)):
        if "skipped" in r: continue
        c.validated += 1
        if "crash" in r:
            c.violation("parsing or analysing %r died: %s" % (t, r["crash"]), {"text": t.hex(), "why": r["crash"], "stderr": r["stderr"][-800:]}, sig="crash:" + t.decode("latin1"))
            continue
        if r.get("p"):
            c.violation("parent map of %r is wrong: %s" % (t, r["p"][:3]), {"text": t.hex(), "p": r["p"]})
        walks.append(walk_of(i, t, r))
        if len(t) > 12: c.sample({"text": t.decode("latin1"), "events": len(walks[-1]["ev"])}, 8)
    validate(c, walks, lambda i: repr(texts[i]), name=name, chunk=20000)

def run(c):
    exe = c.build("nixf_h")
    rnd = random.Random(c.seed)
    join = lambda s, sep: sep.join(byt(p) for p in s)
    # every text of at most two (three) pieces, glued and separated
    alpha = TOKS + list(SPECIAL)
    r = c.tlc("Soup", dict(Alphabet=S(alpha), MaxLen=2, MinLen=0), invariants=["TypeOK", "Emit"], name="soup2")
    texts = [join(s, b"") for s in r.cases] + [join(s, b" ") for s in r.cases]
    # inside the constructs whose reading depends on the lexer's state
    for pre in (b'"', b"''", b"./a${", b'{ a = "', b"{ a", b"let a", b"a.", b"{ inherit", b"x: "):
        texts += [pre + join(s, b" " if pre[-1:].isalpha() else b"") for s in r.cases]
    check(c, exe, texts, "short")
    if c.thorough:
        r = c.tlc("Soup", dict(Alphabet=S(alpha), MaxLen=3, MinLen=3), invariants=["TypeOK", "Emit"], name="soup3")
        check(c, exe, [join(s, rnd.choice([b"", b" "])) for s in r.cases], "soup3")
    # long soups
    r = c.tlc("Soup", dict(Alphabet=S(alpha), MaxLen=24, MinLen=24), invariants=["TypeOK", "Emit"], name="soup24", simulate=c.pick(200, 20000), depth=26, workers=1)
    check(c, exe, [join(s, rnd.choice([b"", b" ", b"\n"])) for s in r.cases], "soup24")
    # programs, and programs with a few edits
    com = dict(Start='"E"', Omit="{}")
    r = c.tlc("Grammar", dict(com, Budget=2), invariants=["Emit"], name="sentences")
    check(c, exe, [text_of(k["text"]).encode() for k in rnd.sample(r.cases, min(len(r.cases), c.pick(4000, 10**6)))], "sentences")
    r = c.tlc("GrammarMut", dict(com, Budget=12, Edits=3, Junk=S(TOKS)), init="MInit", next="MNext", invariants=["MTypeOK", "MEmit"],
              name="damaged", simulate=c.pick(700, 20000), depth=900, workers=1)
    check(c, exe, [text_of(k, rnd).encode() for k in rnd.sample(r.cases, min(len(r.cases), c.pick(6000, 10**6)))], "damaged")
    # nesting: each construct that nests, nested d times
    NEST = [("(", ")"), ("[", "]"), ("{a=", ";}"), ('"${', '}"'), ("''${", "}''"), ("./a${", "}"), ("x:", ""), ("!", ""), ("-", ""), ("a.${", "}"), ("if a then b else ", ""),
            ("let a=", ";in a"), ("with a;", ""), ("assert a;", ""), ("{a?", "}:a"), ("rec{inherit(", ")a;}"), ("a+", ""), ("a++", ""), ("a.b or ", ""), ("let{body=", ";}")]
    depth = c.pick(60, 150)
    deep = []
    for o, k in NEST:
        deep += [(o * depth + "a" + k * depth).encode(), (o * depth).encode(), (k * depth).encode()]
    check(c, exe, deep, "deep")
    for d, o, k in ((200000, "(", ")"), (200000, "[", "]")):
        t = (o * d + k * d).encode()
        r = batch(exe, [{"s": t.hex(), "m": "d"}])[0]
        if "crash" in r:
            c.violation("parsing %d nested %s dies: %s" % (d, o, r["crash"]), {"text": "%r * %d" % (o, d)}, sig="%d nested %s" % (d, o))
        c.validated += 1

if __name__ == "__main__":
    main(run, "C05")
