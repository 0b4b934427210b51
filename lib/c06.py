"""C06: grouping of valid expressions."""
from common import *
from sexpr import sx
import random

INFIX = ['|>', '<|', '->', '||', '&&', '==', '!=', '<', '>', '<=', '>=', '//', '+', '-', '*', '/', '++', '?']
LEVELS = ['|>', '->', '||', '==', '<', '//', '-', '/', '++', '?']
FORMS = ['var', 'call', 'select', 'selor', 'paren', 'list', 'int', 'str', 'attrs']
S = lambda xs: "{" + ", ".join('"%s"' % x for x in xs) + "}"

def replay(c, exe, cases, what):
    """Parse each generated expression with the real parser; compare the tree."""
    srcs = [" ".join(k["toks"]) for k in cases]
    res = batch(exe, [{"s": hx(s), "m": "td"} for s in srcs])
    for k, s, r in zip(cases, srcs, res):
        if "skipped" in r: continue
        c.validated += 1
        if "crash" in r:
            c.violation("parser died on %r: %s" % (s, r["crash"]), {"src": s}, sig=s)
            continue
        names = [d["n"] for d in r["d"]]
        NA = "parse-operator-noassoc"
        na = NA in names
        errs = [d["n"] for d in r["d"] if d["sev"] <= 1 and d["n"] != NA]
        if k.get("err"):
            if not na:
                c.violation("chained non-associative operators not reported in %r" % s, {"src": s, "diags": names}, sig=s)
            continue
        if na or errs:
            c.violation("valid expression %r is reported as an error: %s" % (s, names), {"src": s, "diags": names}, sig=s)
        elif r["t"] is None or sx(r["t"]) != k["tree"]:
            c.violation("%r parsed as %s, Nix groups it as %s" % (s, sx(r["t"]), k["tree"]), {"src": s, "got": sx(r["t"]), "want": k["tree"]}, sig=s)
        c.sample({"src": s, "tree": k["tree"], "from": what})

def norm(t):
    return re.sub(r"([^( ]\?) ", r"\1", " ".join(re.findall(r"[^\s(){}]+|[(){}]", t)))

TRIVIA = [" ", " ", "\n", "  ", "\t", " # c\n", " /* c */ ", " /** d\n*/ ", "\r\n"]
def text_of(pieces, rnd=None):
    out, glue = "", True
    for p in pieces:
        if p == "":
            glue = True
            continue
        if not glue:
            out += rnd.choice(TRIVIA) if rnd else " "
        out += p
        glue = False
    return out

def replay_grammar(c, exe, cases, what, seen):
    rnd = random.Random(c.seed)
    todo, legacy = [], set()
    for k in cases:
        s = text_of(k["text"])
        if s in seen: continue
        seen.add(s)
        todo.append((s, norm(k["tree"])))
        if len(s) < 400:
            todo.append((text_of(k["text"], rnd), norm(k["tree"])))
        if "oldlet_operand" in k["used"]:
            legacy.update(todo_s for todo_s, _ in todo[-2:])
        for u in k["used"]:
            c.extra.setdefault("productions", {})
            c.extra["productions"][u] = c.extra["productions"].get(u, 0) + 1
    res = batch(exe, [{"s": hx(s), "m": "td"} for s, _ in todo])
    for (s, want), r in zip(todo, res):
        if "skipped" in r: continue
        c.validated += 1
        if "crash" in r:
            c.violation("parser died on %r: %s" % (s, r["crash"]), {"src": s}, sig=s)
            continue
        bad = [d["n"] for d in r["d"] if d["sev"] <= 1 and d["n"].startswith(("parse-", "lex-"))]
        if bad:
            c.violation("valid program %r is reported as a syntax error: %s" % (s, bad), {"src": s, "diags": bad}, sig="legacy let as operand" if s in legacy else s)
        elif r["t"] is None or norm(sx(r["t"])) != want:
            c.violation("%r parsed as %s, Nix reads %s" % (s, r["t"] and norm(sx(r["t"])), want), {"src": s, "want": want}, sig=s)
        c.sample({"src": s, "tree": want, "from": what}, 12)

def run(c):
    exe = c.build("nixf_h")
    inv = ["TypeOK", "StackOrdered", "Emit"]
    base = {"PipeDeviation": "TRUE"}
    # every pair of operators with every placement of up to two prefix operators
    r = c.tlc("Ops", dict(base, MaxInfix=2, MaxPrefix=2, Infix=S(INFIX), Forms=S(["var"])), invariants=inv, name="pairs")
    replay(c, exe, r.cases, "pairs")
    # one or two operators per precedence level, three deep
    r = c.tlc("Ops", dict(base, MaxInfix=3, MaxPrefix=c.pick(1, 2), Infix=S(c.pick(LEVELS, LEVELS + ['<|', '!=', '+', '*', '>='])), Forms=S(["var"])), invariants=inv, name="triples")
    replay(c, exe, r.cases, "triples")
    # operands of every form
    r = c.tlc("Ops", dict(base, MaxInfix=1, MaxPrefix=1, Infix=S(LEVELS), Forms=S(FORMS)), invariants=inv, name="forms")
    replay(c, exe, r.cases, "forms")
    # long random chains
    r = c.tlc("Ops", dict(base, MaxInfix=9, MaxPrefix=6, Infix=S(INFIX), Forms=S(FORMS)), invariants=inv, name="chains",
              simulate=c.pick(3000, 60000), depth=32, workers=1)
    replay(c, exe, r.cases, "chains")
    # Nix's own associativity of the pipe operators (known findings)
    r = c.tlc("Ops", dict(MaxInfix=2, MaxPrefix=0, Infix=S(['|>', '<|']), Forms=S(["var"]), PipeDeviation="FALSE"), invariants=inv, name="pipes")
    replay(c, exe, r.cases, "pipes")

    seen = set()
    g = ["TypeOK", "Balanced", "Emit"]
    r = c.tlc("Grammar", dict(Budget=c.pick(2, 3), Start='"E"', Omit=S(["oldlet_operand"])), invariants=g, name="sentences")
    replay_grammar(c, exe, r.cases, "sentences", seen)
    r = c.tlc("Grammar", dict(Budget=2, Start='"App"', Omit="{}"), invariants=g, name="operands")
    replay_grammar(c, exe, r.cases, "operands", seen)
    ops = S(["bin" + o for o in INFIX if o != "->"] + ["not", "neg", "oldlet_operand"])
    for n, budget, num, omit in (("programs", 14, c.pick(700, 30000), S(["oldlet_operand"])), ("keywords", 10, c.pick(700, 30000), ops)):
        r = c.tlc("Grammar", dict(Budget=budget, Start='"E"', Omit=omit), invariants=g, name=n, simulate=num, depth=1200, workers=1)
        replay_grammar(c, exe, r.cases, n, seen)

if __name__ == "__main__":
    main(run, "C06")
