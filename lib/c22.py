"""C22: document URIs and file paths convert back and forth without loss."""
from common import *
from lspbatch import *
import random

B = lambda s: "{" + ", ".join(str(x) for x in sorted(set(s))) + "}"
seq = lambda s: "<<" + ", ".join(str(x) for x in s) + ">>"

def conversions(c, exe, cases):
    rs = batch(exe, [{"u": bytes(k["u"]).hex()} for k in cases])
    for k, r in zip(cases, rs):
        c.validated += 1
        u, want = bytes(k["u"]), bytes(k["p"]) or None
        bad = lambda what: c.violation("%r %s" % (u, what), {"uri": list(u)}, sig=u.hex())
        if "p" not in r: bad("makes the server fail: %s" % r); continue
        got = bytes.fromhex(r["p"]) if r["p"] is not None else None
        if k["net"] and got is None: continue
        if got != want: bad("is read as %r instead of %r" % (got, want)); continue
        if r["r"] != r["p"] and got is not None: bad("is resolved to %s" % r["r"])
        if got is None: continue
        if r.get("relative"): bad("is accepted as %r, which is not absolute" % got); continue
        for f, nm in (("bp", "canonical"), ("cp", "file"), ("dp", "created")):
            if r[f] != r["p"]: bad("is the path %r, whose %s URI %r is the path %r" % (got, nm, bytes.fromhex(r["b"]), bytes.fromhex(r[f]) if r[f] else None))
        if not re.fullmatch(rb"file:[A-Za-z0-9._~:/?#\[\]@!$&'()*+,;=%-]*", bytes.fromhex(r["b"])): bad("is sent back as %r, which is no URI" % bytes.fromhex(r["b"]))

TEXT = "let x = 1; y = x; in [ x ./b.nix x y y ]"
def uris(x):
    """All URIs within a reply."""
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("uri", "target") and isinstance(v, str): yield v
            elif k == "changes": yield from v
            yield from uris(v)
    elif isinstance(x, list):
        for v in x: yield from uris(v)

class Talk:
    def __init__(self, exe): self.s, self.pub = start(exe), []
    def other(self, m):
        if m.get("method") == "textDocument/publishDiagnostics": self.pub += list(uris(m["params"]))
        elif "id" in m and "method" in m: self.s.send({"jsonrpc": "2.0", "id": m["id"], "result": None})
    def ask(self, meth, **par): return self.s.wait_reply(self.s.request(meth, par), 30, self.other)

def server(c, exe, forms, bad, rnd):
    """forms: {path: [URIs]}: documents opened by one form and asked about by the others.  bad: URIs that are not accepted."""
    t, seen = Talk(exe), []
    jobs = [(p, us) for p, us in forms.items()] + [(None, [u]) for u in bad]
    rnd.shuffle(jobs)
    for n, (p, us) in enumerate(jobs):
        c.validated += 1
        form = lambda: {"uri": rnd.choice(us)}
        try:
            t.pub = []
            t.s.notify("textDocument/didOpen", {"textDocument": dict(form(), languageId="nix", version=1, text="1")})
            if p is not None: t.s.notify("textDocument/didChange", {"textDocument": dict(form(), version=2), "contentChanges": [{"text": TEXT}]})
            at = {"position": {"line": 0, "character": 15}}
            rs = [t.ask(m, textDocument=form(), **x) for m, x in (("textDocument/definition", at), ("textDocument/references", dict(at, context={"includeDeclaration": True})), ("textDocument/rename", dict(at, newName="z")),
                                                                  ("textDocument/documentSymbol", {}), ("textDocument/documentHighlight", at))]
            t.s.notify("textDocument/didClose", {"textDocument": form()})
            gone = t.ask("textDocument/rename", textDocument=form(), newName="z", **at)
        except (EOFError, TimeoutError, BrokenPipeError) as e:
            c.violation("the server dies or does not answer on a document of %s" % [x[:60] for x in us[:2]], {"uris": us, "path": p}, sig=str(us[0]))
            t.s.p.kill()
            t = Talk(exe); continue
        if p is None:
            if any("error" not in r for r in rs) or t.pub: c.violation("%r is no file URI, but accepted: %s %s" % (us[0], rs[0], t.pub), {"uri": us[0]}, sig=us[0])
            continue
        found = list(t.pub)
        for r in rs: found += list(uris(r.get("result")))
        miss = [k for k, r in zip(("definition", "references", "rename", "symbols", "highlights"), rs) if not r.get("result")]
        if miss: c.violation("no %s for the document %r under its URIs %s" % (miss, p, us), {"uris": us, "path": p.hex()}, sig=p.hex())
        if gone.get("result"): c.violation("the document %r is still there after having been closed by one of %s" % (p, us), {"uris": us, "path": p.hex()}, sig=p.hex())
        if len(t.pub) < 2 or len(found) < len(t.pub) + 3: c.violation("diagnostics of %r are not published or locations are missing: %s, %s" % (p, t.pub, found), {"uris": us, "path": p.hex()}, sig=p.hex())
        for u in sorted(set(found)): seen.append((u, p, us))
    t.s.p.kill()
    f = os.path.join(c.run, "seen.ndjson")
    with open(f, "w") as o:
        for n, (u, p, us) in enumerate(seen): o.write(json.dumps({"n": n, "u": list(u.encode()), "p": list(p)}) + "\n")
    for k in c.tlc("UriTrace", {}, invariants=["Judge"], name="answers", env={"TRACES": f}).cases:
        u, p, us = seen[k["n"]]
        c.violation("for the document %r, known as %s, the server sends %r" % (p, us, u), {"uri": u, "path": p.hex()}, sig=p.hex())
    c.extra["URIs in answers"] = len(seen)

def run(c):
    exe, nixd = c.build("uri_h", "nixd")
    rnd = random.Random(c.seed)
    inv = ["AllForms", "RoundTrip", "Accepted", "Emit"]
    file3 = b"file:///"
    odd = [47, 97, 67, 58, 37, 52, 92, 32, 35, 63, 43, 38, 195, 255, 0, 127]
    cases = []
    def gen(mode, by, pre, lo, hi, name, styles='{"raw", "upper", "lower"}', width=0, **kw):
        cases.extend(c.tlc("UriGen", dict(Mode='"%s"' % mode, Bytes=B(by), Styles=styles, Prefixes="{%s}" % ", ".join(seq(p) for p in pre), MinLen=lo, MaxLen=hi, Width=width), invariants=inv, name=name, **kw).cases)
    gen("path", odd, [file3, b"file:/"], 0, 2, "forms2")
    gen("path", range(0, 256), [file3], 1, 1, "bytes")
    gen("path", [47, 97, 58, 37, 52, 92, 195], [file3], 3, c.pick(3, 4), "forms3")
    gen("path", odd, [file3], 4, c.pick(4, 4), "raw4", styles='{"raw"}', **({} if c.thorough else {}))
    gen("path", list(range(1, 256)), [file3, b"file:/"], 5, 40, "long", width=2, simulate=c.pick(100, 6000), depth=42, workers=1)
    gen("text", [47, 97, 58, 37, 50, 70, 102, 92], [b"file:", b"file://", b"file:///", b"file://%"], 0, c.pick(4, 5), "text")
    gen("text", b"/:%2Ffile.+-1A ", [b"", b"f", b"file", b"FILE:///", b"fil", b"http://a", b"file%3A", b"test:///", b"untitled:"], 0, c.pick(3, 4), "scheme")
    gen("text", b"/:%2Ffile.+-1A\\", [b"file:", b"file:///", b""], 5, 30, "longtext", width=2, simulate=c.pick(400, 8000), depth=32, workers=1)
    cases = list({bytes(k["u"]): k for k in cases}.values())
    # escapes within the scheme are beyond RFC 3986 and this specification
    cases = [k for k in cases if b"%" not in bytes(k["u"]).split(b":")[0]]
    c.log("%d URIs" % len(cases))
    conversions(c, exe, cases)
    forms, bad = {}, []
    for k in cases:
        try: u = bytes(k["u"]).decode()
        except UnicodeDecodeError: continue
        if k["net"]: continue
        if k["p"]: forms.setdefault(bytes(k["p"]), []).append(u)
        else: bad.append(u)
    many = sorted(p for p in forms if len(forms[p]) > 1)
    few = sorted(p for p in forms if len(forms[p]) == 1)
    server(c, nixd, {p: forms[p] for p in rnd.sample(many, min(len(many), c.pick(500, 5000))) + rnd.sample(few, min(len(few), c.pick(300, 3000)))}, rnd.sample(bad, min(len(bad), c.pick(300, 3000))), rnd)
    c.sample([bytes(k["u"]).decode("latin-1") for k in cases[::len(cases) // 9]])

if __name__ == "__main__":
    main(run, "C22")
