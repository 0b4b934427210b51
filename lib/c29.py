"""C29: the linter prints exactly what the analyses found, and the server shows the same."""
from common import *
from lspbatch import *
import c05, random
from c06 import text_of, S
from concurrent.futures import ThreadPoolExecutor

NAMED = {"<nl>": b"\n", "<crnl>": b"\r\n", "<e>": "é".encode(), "<clef>": "𝄞".encode(), "<ff>": b"\xff", "<cut>": b"\xe2\x82", "<dq>": b'"', "<tab>": b"\t", "<bs>": b"\\\\", "<esc>": b"\\n", "<surr>": b"\xed\xa0\x80"}
VALUES = {"<bs>": b"\\", "<esc>": b"\n"}
def byt(ts): return b"".join(NAMED.get(t) or t.encode() for t in ts)
def arg(ts): return b"".join(VALUES.get(t) or NAMED.get(t) or t.encode() for t in ts).decode(errors="replace")
def squash(s): return re.sub("\ufffd+", "\ufffd", s)

# pieces: tokens, and reports (name, severity, tags, names are looked up, arguments, from, to, notes, fixes)
def q(s): return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"')
def seq(xs): return "<<%s>>" % ", ".join(xs)
def rep(n, sev, a, b, args=(), tags=(), look=False, notes=(), fixes=()):
    return "[n |-> %s, sev |-> %d, tags |-> %s, look |-> %s, args |-> %s, from |-> %d, to |-> %d, notes |-> %s, fixes |-> %s]" % (
        q(n), sev, seq(map(str, tags)), "TRUE" if look else "FALSE", seq(seq(map(q, x)) for x in args), a, b,
        seq("[n |-> %s, args |-> %s, from |-> %d, to |-> %d]" % (q(m), seq(seq(map(q, x)) for x in ar), x, y) for m, ar, x, y in notes),
        seq(seq("[from |-> %d, to |-> %d, new |-> %s]" % (x, y, q(t)) for x, y, t in f) for f in fixes))
def piece(toks, *reps): return "[toks |-> %s, reps |-> %s]" % (seq(map(q, toks)), seq(reps))
def pieces():
    out = [piece(["1"]), piece(["<dq>", "<clef>", "<e>", "<dq>"]), piece(["''", "~", "x", "''"]), piece(["(x:", "~", "x)"]),
           piece(["q1"], rep("sema-undefined-variable", 1, 0, 1, [["q1"]], look=True)),
           piece(["{", "~", "inherit", " ", "q2", "~", ";", "}"], rep("sema-undefined-variable", 1, 4, 5, [["q2"]], look=True)),
           piece(["(let", " ", "y", " = 1", ";", "~", "in 2)"], rep("sema-unused-def-let", 2, 2, 3, [["y"]], [0], True, fixes=[[(2, 5, "")]])),
           piece(["({ a,", "~", "a", "~", "}: a)"][:0] + ["({ ", "a", ",", "~", "a", "~", "}: a)"], rep("sema-dup-formal", 1, 4, 5, notes=[("note-duplicate-formal", [], 1, 2)])),
           piece(["({ ", "a", ",", "~", "... }", "@", "a", ": 1)"], rep("sema-dup-formal-arg", 1, 6, 7, notes=[("note-duplicate-formal", [], 1, 2)]), rep("sema-unused-def-lambda-witharg-formal", 4, 1, 2, [["a"]], [0], True)),
           piece(["({ a, ", "b", " }:", "~", "a)"], rep("sema-unused-def-lambda-noarg-formal", 2, 1, 2, [["b"]], [0], True)),
           piece(["({ a }", "~", "@", "~", "c", ":", "~", "a)"], rep("sema-unused-def-lambda-witharg-arg", 2, 4, 5, [["c"]], [0], True)),
           piece(["(", "with", "~", "{ }", ";", "~", "1)"], rep("sema-extra-with", 2, 1, 2, look=True, fixes=[[(1, 2, ""), (4, 5, ""), (3, 4, "")]])),
           piece(["rec", "~", "{ a = 1; }"], rep("sema-extra-rec", 2, 0, 1, tags=[0], look=True, fixes=[[(0, 1, "")]])),
           piece(["(1 ==", "~", "2 ", "==", " 3)"], rep("parse-operator-noassoc", 1, 3, 4)),
           piece(["(", "let", " {", "~", "a = 1;", "~", "}", ")"], rep("deprecated-let", 2, 1, 7), rep("deprecated-let-missing-body", 1, 1, 7)),
           piece(["{", "~", "inherit", ";", " }"], rep("empty-inherit", 2, 2, 3, tags=[0], fixes=[[(2, 3, ""), (3, 4, "")]])),
           piece(["(", "(1", "~", "+ 2)", "~", ")"], rep("parse-redundant-paren", 2, 0, 1, tags=[0], fixes=[[(0, 1, ""), (5, 6, "")]])),
           piece(["(", "<dq>", "<e>", "<dq>", ")"], rep("parse-redundant-paren", 2, 0, 1, tags=[0], fixes=[[(0, 1, ""), (4, 5, "")]])),
           piece(["01", ".5"], rep("lex-float-leading-zero", 2, 0, 1, [["01"]])),
           piece(["{ a = ", "1", "~", "}"], rep("parse-expected", 1, 2, 2, [[";"]], fixes=[[(2, 2, ";")]])),
           piece(["(", "builtins", ".", "map)"], rep("sema-primop-removed-prefix", 2, 1, 2, look=True, fixes=[[(1, 2, ""), (2, 3, "")]])),
           piece(["<dq>", "${", "}", "<dq>"], rep("parse-expected", 1, 2, 2, [["interpolation expression"]], fixes=[[(2, 2, " expr")]])),
           piece(["({ a", ", ...", " , b", " }: a b)"], rep("sema-misplaced-ellipsis", 1, 1, 2, fixes=[[(1, 2, ""), (3, 3, ", ...")]])),
           piece(["(let a = 1;", "~", "in { ", "a", ".", "b = a; ", "a", " = ", "3; })"], rep("sema-duplicated-attrname", 1, 6, 7, [["a"]], notes=[("note-prev", [], 3, 4)]))]
    for nm in (["a"], ["<dq>", "<e>", "<clef>", "<dq>"], ["<dq>", "<ff>", "<dq>"], ["<dq>", "x", "<cut>", "<dq>"], ["<dq>", "{}", "<dq>"], ["<dq>", "%s", "<bs>", "<dq>"], ["<dq>", "<esc>", "<tab>", "<dq>"], ["<dq>", "<surr>", "z", "<dq>"]):
        k, v = len(nm), [t for t in nm if t != "<dq>"]
        out.append(piece(["{", "~"] + nm + [" = 1;", "~"] + nm + [" = 2;", " }"], rep("sema-duplicated-attrname", 1, k + 4, 2 * k + 4, [v], notes=[("note-prev", [], 2, k + 2)])))
        if k > 1: out.append(piece(["(let "] + nm + [" = 1", ";", " in 1)"], rep("sema-unused-def-let", 2, 1, k + 1, [v], [0], True, fixes=[[(1, k + 3, "")]])))
    return "{%s}" % ", ".join(out)
SEPS = "{%s}" % ", ".join(seq(map(q, s)) for s in ([" "], ["<nl>"], ["<crnl>", " "], [" ", "# ", "<e>", "<clef>", "<nl>"], [" /* ", "<nl>", "<clef>", " */"], ["<tab>", "# ", "<cut>", "<nl>", "<nl>"]))
OPTS = ["--pretty-print", "--variable-lookup", "--lookup", "-", ""]

def tidy(exe, text, args):
    """Its report, or a string that says what is wrong with it."""
    p = subprocess.run([exe] + list(args), input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"), timeout=120)
    if p.returncode: return "exits with %d: %s" % (p.returncode, p.stderr[-300:].decode(errors="replace").strip())
    try: s = p.stdout.decode()
    except UnicodeDecodeError: return "prints what is not UTF-8"
    try: r = json.loads(s)
    except ValueError as e: return "prints what is no JSON (%s)" % e
    if not isinstance(r, list): return "prints no array"
    lines = s.count("\n")
    if "--pretty-print" in args:
        if r and lines < 3: return "prints on one line"
    elif lines != 1 or not s.endswith("\n"): return "prints %d lines" % lines
    return r
def span(x): return tuple((x["range"][k]["offset"], x["range"][k]["line"], x["range"][k]["column"]) for k in ("lCur", "rCur"))
def entry(d):
    return (d["sname"], d["severity"], span(d), tuple(map(squash, d["args"])), tuple(sorted(d["tag"])), tuple(sorted((n["sname"], span(n), tuple(map(squash, n["args"]))) for n in d["notes"])),
            tuple(sorted(tuple(sorted((span(e), squash(e["newText"])) for e in f["edits"])) for f in d["fixes"])))
def expected(r):
    sp = lambda x: tuple((k["o"], k["l"], k["c"]) for k in (x["from"], x["to"]))
    ar = lambda x: tuple(squash(arg(a)) for a in x["args"])
    return (r["n"], r["sev"], sp(r), ar(r), tuple(sorted(r["tags"])), tuple(sorted((n["n"], sp(n), ar(n)) for n in r["notes"])), tuple(sorted(tuple(sorted((sp(e), e["new"]) for e in f)) for f in r["fixes"])))
def multiset(xs):
    m = {}
    for x in xs: m[x] = m.get(x, 0) + 1
    return m
def fill(d):
    """the message with its arguments; None if they do not fit it"""
    parts = re.split(r"\{\{|\}\}|\{\}", d["message"])
    marks = re.findall(r"\{\{|\}\}|\{\}", d["message"])
    if marks.count("{}") != len(d["args"]): return None
    a, out = list(d["args"]), parts[0]
    for m, p in zip(marks, parts[1:]): out += (a.pop(0) if m == "{}" else m[0]) + p
    return out
def sane(text, r):
    """What can be said of any report."""
    starts = [0] + [m.end() for m in re.finditer(rb"\n", text)]
    def place(x):
        for o, l, c in span(x):
            if not (0 <= o <= len(text) and l < len(starts) and starts[l] + c == o and text.count(b"\n", 0, o) == l): return False
        return span(x)[0][0] <= span(x)[1][0]
    for d in r:
        for x in [d] + d["notes"]:
            if fill(x) is None: return "the arguments %s do not fit %r" % (x["args"], x["message"])
            if not place(x): return "%s is not at a place of the text: %s" % (x["sname"], span(x))
        for f in d["fixes"]:
            if not f["message"]: return "a fix of %s has no name" % d["sname"]
            for e in f["edits"]:
                if not place(e): return "an edit of a fix of %s is not at a place of the text: %s" % (d["sname"], span(e))
    return None

SEV = [1, 1, 2, 3, 4]
def shown(text, r):
    """What the server has to show of a report: [(code, range, severity, tags, related ranges and messages, message, fixes)]"""
    t = text.decode()
    # within a character is behind it
    def at(o): return pos(t, len(text[:o].decode(errors="ignore")) + (o < len(text) and 0x80 <= text[o] < 0xc0))
    def rg(x): a, b = span(x); return {"start": at(a[0]), "end": at(b[0])}
    out = []
    for d in r:
        out.append((d["sname"], rg(d), SEV[d["severity"]], [x + 1 for x in d["tag"]], [(rg(n), fill(n)) for n in d["notes"]], fill(d), len(d["fixes"])))
        out += [(n["sname"], rg(n), 4, [x + 1 for x in n["tag"]], [(rg(d), None)], fill(n), 0) for n in d["notes"]]
    return out
def key(code, r, sev, tags, related, msg): return json.dumps([code, r, sev, sorted(tags), sorted(json.dumps(x, sort_keys=True) for x in related), msg], sort_keys=True)
def compare(text, r, diags):
    want, got = [], []
    for code, rg, sev, tags, rel, msg, fixes in shown(text, r): want.append((code, rg, sev, tags, rel, msg, fixes))
    left = list(diags)
    for code, rg, sev, tags, rel, msg, fixes in want:
        def fits(d):
            m = d["message"]
            rest = m[len(msg):] if m.startswith(msg) else None
            if d.get("code") != code or d["range"] != rg or d.get("severity") != sev or d.get("source") != "nixf" or sorted(d.get("tags") or []) != sorted(tags): return False
            if rest is None or bool(rest) != bool(fixes) or (fixes > 1 and str(fixes) not in rest): return False
            i = d.get("relatedInformation") or []
            return len(i) == len(rel) and all(a["location"]["range"] == x and (y is None or a["message"] == y) for a, (x, y) in zip(i, rel))
        f = [d for d in left if fits(d)]
        if not f: return "%s at %s is not shown as it is reported (%r); shown is %s" % (code, rg, msg, json.dumps([d for d in diags if d.get("code") == code][:3], ensure_ascii=False))
        left.remove(f[0])
    return "shown besides: %s" % json.dumps(left[:3]) if left else None

def run(c):
    exe, nixd = c.build("nixf-tidy", "nixd")
    rnd = random.Random(c.seed)
    con = lambda mp, mo, rule="any", seps=SEPS, opts=OPTS: dict(Pieces=pieces(), Seps=seps, Opts="{%s}" % ", ".join(map(q, opts)), MaxPieces=mp, MaxOpts=mo, Rule=q(rule),
                                 Wide="[t \\in {%s} |-> %s]" % (", ".join(map(q, NAMED)), "CASE " + " [] ".join("t = %s -> %d" % (q(k), len(v)) for k, v in NAMED.items())))
    inv = ["AllLocated", "OrderFree", "Grows", "Emit"]
    cases = c.tlc("Tidy", con(1, 2), invariants=inv, name="one").cases
    if not c.thorough: cases = rnd.sample(cases, min(len(cases), 1200))
    if c.thorough:
        cases += c.tlc("Tidy", con(2, 1, seps="{%s, %s}" % (seq([q("<crnl>")]), seq([q(" "), q("# "), q("<clef>"), q("<nl>")])), opts=OPTS[1:2]), invariants=["AllLocated", "Emit"], name="two").cases
    for size, k in ((2, 500), (12, 150)): cases += c.tlc("Tidy", con(size, 2), invariants=["Emit"], name="pieces%d" % size, simulate=c.pick(k, 10000), depth=3 + 2 * size, workers=1).cases
    if not c.tlc("Tidy", con(1, 2, "last", seps="{%s}" % seq([q(" ")])), invariants=["OrderFree"], name="last", may_fail=True).violated: raise Inconclusive("the model does not tell the order of options")
    kinds = {}
    def one(k):
        text = byt(k["toks"])
        r = tidy(exe, text, k["opts"])
        return text, k, r
    texts = []
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, cases))
    for text, k, r in res:
        c.validated += 1
        def bad(what, sig): c.violation("%r with %s: the linter %s" % (text, k["opts"], what), {"text": text.hex(), "opts": k["opts"], "report": r}, sig=sig)
        if isinstance(r, str): bad(r, r.split(":")[0]); continue
        w = sane(text, r)
        if w: bad("is wrong, " + w, "sane " + w.split()[0]); continue
        got, want = multiset(map(entry, r)), multiset(map(expected, k["reps"]))
        for e in want:
            if got.get(e, 0) < want[e]: bad("does not report %s; of that kind it reports %s" % (e, [g for g in got if g[0] == e[0]][:3]), "missing " + e[0]); break
        else:
            for e in got:
                if got[e] > want.get(e, 0): bad("reports %s besides" % (e,), "besides " + e[0]); break
        for d in r:
            for x, w in [(d, "d")] + [(n, "n") for n in d["notes"]]:
                if kinds.setdefault((w, x["kind"]), x["sname"]) != x["sname"] or kinds.setdefault((w, x["sname"]), x["kind"]) != x["kind"]: bad("numbers %s as %s" % (x["sname"], x["kind"]), "kinds")
        texts.append(text)
    c.sample({"text": res[0][0].decode(errors="replace"), "opts": cases[0]["opts"], "reports": len(cases[0]["reps"])})
    # any text
    more = [b"", b"\n", b"\0", b"\xef\xbb\xbf1", b"# only a comment", b"{", b'"', b"/*"]
    alpha = c05.TOKS + list(c05.SPECIAL)
    r = c.tlc("Soup", dict(Alphabet=S(alpha), MaxLen=16, MinLen=1), invariants=["TypeOK", "Emit"], name="soup", simulate=c.pick(40, 2000), depth=18, workers=1)
    more += [rnd.choice([b"", b" ", b"\n"]).join(c05.byt(p) for p in s) for s in rnd.sample(r.cases, min(len(r.cases), c.pick(500, 20000)))]
    r = c.tlc("GrammarMut", dict(Start='"E"', Omit="{}", Budget=10, Edits=2, Junk=S(c05.TOKS)), init="MInit", next="MNext", invariants=["MTypeOK", "MEmit"], name="damaged", simulate=c.pick(120, 4000), depth=900, workers=1)
    for k in rnd.sample(r.cases, min(len(r.cases), c.pick(700, 20000))):
        t = text_of(k, rnd).encode()
        more.append(t)
        if rnd.random() < .3:
            i = rnd.randrange(0, len(t) + 1)
            more.append(t[:i] + bytes([rnd.choice([0, 0x80, 0xc3, 0xe2, 0xff, 0xf0])]) + t[i:])
    more = list(dict.fromkeys(more))
    def any_(t): return [tidy(exe, t, a) for a in ((), ("--variable-lookup",), ("--variable-lookup", "--pretty-print"))]
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(any_, more))
    reports = {}
    for t, (a, b, p) in zip(more, res):
        c.validated += 1
        def bad(what, sig): c.violation("%r: the linter %s" % (t, what), {"text": t.hex()}, sig=sig)
        e = next((x for x in (a, b, p) if isinstance(x, str)), None)
        if e: bad(e, e.split(":")[0]); continue
        w = sane(t, b)
        if w: bad("is wrong, " + w, "sane " + w.split()[0]); continue
        if b != p: bad("reports something else when it prints prettily", "pretty"); continue
        ma, mb = multiset(map(entry, a)), multiset(map(entry, b))
        if any(mb.get(x, 0) < ma[x] for x in ma): bad("does not report %s when names are looked up" % ([x[0] for x in ma if mb.get(x, 0) < ma[x]]), "grows"); continue
        reports[t] = b
    # what the server shows
    docs = []
    for t in list(dict.fromkeys(texts)) + list(reports):
        try: s = t.decode()
        except UnicodeDecodeError: continue
        if "\0" not in s: docs.append(t)
    docs = rnd.sample(docs, min(len(docs), c.pick(900, 20000)))
    todo = [t for t in docs if t not in reports]
    with ThreadPoolExecutor(8) as ex: reports.update(zip(todo, ex.map(lambda t: tidy(exe, t, ["--variable-lookup"]), todo)))
    items = [Doc(t.decode(), [], uri="file:///v/%d.nix" % i) for i, t in enumerate(docs)]
    ask(nixd, items)
    for t, d in zip(docs, items):
        c.validated += 1
        if d.dead or d.diags is None: c.violation("%r: the server %s" % (t, d.dead or "publishes nothing"), {"text": t.hex()}, sig="server"); continue
        if isinstance(reports[t], str): continue
        w = compare(t, reports[t], d.diags)
        if w: c.violation("%r: what the linter reports and the server shows differ: %s" % (t, w), {"text": t.hex()}, sig="shown " + w.split()[0])

if __name__ == "__main__":
    main(run, "C29")
