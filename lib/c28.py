"""C28: documentation that is offered is that of what is under the cursor."""
from common import *
from lspbatch import *
import random, urllib.parse
TITLE = "Open Noogle documentation for "
HOST = "https://noogle.dev/f/lib/"
SEGS = [("aa", "aa"), ("b'-c", "b'-c"), ('"dd"', "dd"), ('"e e/f"', "e e/f"), ('"?g#h"', "?g#h"), ('"%41"', "%41"), ('"é𝄞"', "é𝄞"), ('"\\""', '"'), ('"\\n.."', "\n.."), ('${"ii"}', "ii"), ("${jj}", ""), ('"k${ll}"', ""), ('"<m>"', "<m>"), ('"a&b=c+d;e"', "a&b=c+d;e"), ('".."', ".."), ('"mm\\${"', "mm${")]
BASES = ["lib", "pkgs", "lib'", "(lib)", "builtins", "\"lib\"", "lib2"]
def tla(s): return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n")
def segs(xs): return "{%s}" % ", ".join("[t |-> %s, v |-> %s]" % (tla(t), tla(v)) for t, v in xs)
def tset(xs): return "{%s}" % ", ".join(map(tla, xs))

def page(url):
    """The names of a page, None if it is none."""
    if not url.startswith(HOST) or re.search(r"[^A-Za-z0-9._~!$&'()*+,;=:@%/-]", url[len(HOST):]) or re.search(r"%(?![0-9A-Fa-f]{2})", url[len(HOST):]): return None
    return [urllib.parse.unquote(x, errors="strict") for x in url[len(HOST):].split("/")]

class Doc28:
    def __init__(self, pieces, text, at):
        self.pieces, self.text, self.at = pieces, text, at

def ask28(c, exe, items):
    s = start(exe)
    shown = []
    def other(m):
        if m.get("method") == "window/showDocument": shown.append(m["params"])
        if "id" in m and "method" in m: s.send({"jsonrpc": "2.0", "id": m["id"], "result": {"success": True} if m["method"] == "window/showDocument" else [None] if m["method"] == "workspace/configuration" else None})
    try:
        for n, (text, at, want) in enumerate(items):
            u = "file:///v/%d.nix" % n
            s.notify("textDocument/didOpen", {"textDocument": {"uri": u, "languageId": "nix", "version": 1, "text": text}})
            p = pos(text, at)
            r = s.wait_reply(s.request("textDocument/codeAction", {"textDocument": {"uri": u}, "range": {"start": p, "end": p}, "context": {"diagnostics": []}}), 60, other)
            c.validated += 1
            acts = r.get("result") or []
            docs = [a for a in acts if a["title"].startswith(TITLE) or "noogle" in json.dumps(a.get("data") or "").lower()]
            def bad(what): c.violation("%r, at %r: %s" % (text, text[:at] + "|" + text[at:], what), {"text": text, "at": at, "actions": acts}, sig=what.split(":")[0])
            if not want:
                if docs: bad("documentation is offered: %s" % docs)
            elif len(docs) != 1: bad("documentation of lib.%s is not offered (%s)" % (".".join(want), docs))
            else:
                a = docs[0]
                if a["title"] != TITLE + want[-1]: bad("the documentation offered is called %r" % a["title"])
                if a.get("edit"): bad("documentation edits: %s" % a)
                del shown[:]
                r = s.wait_reply(s.request("codeAction/resolve", a), 60, other)
                if r.get("result") != a: bad("resolving changes the action: %s" % r)
                s.wait_reply(s.request("textDocument/hover", {"textDocument": {"uri": u}, "position": p}), 60, other)
                end = time.time() + 20
                while not shown and time.time() < end:
                    try: other(s.recv(0.2) or {})
                    except TimeoutError: pass
                if len(shown) != 1 or not shown[0].get("external"): bad("resolving shows %s" % shown)
                elif page(shown[0]["uri"]) != want: bad("the page opened is another: %s" % shown[0]["uri"])
            # others open nothing
            for a in [x for x in acts if x not in docs][:2]:
                del shown[:]
                r = s.wait_reply(s.request("codeAction/resolve", a), 60, other)
                if r.get("result") != a: bad("resolving changes an action: %s instead of %s" % (r, a))
                s.wait_reply(s.request("no/such"), 60, other)
                if shown: bad("resolving an action shows a page: %s" % shown)
        s.send({"jsonrpc": "2.0", "id": "bye", "method": "shutdown"})
        s.notify("exit")
        s.close()
    except (EOFError, TimeoutError, BrokenPipeError) as e:
        s.p.kill(); s.p.wait()
        c.violation("asking for documentation in %r: the server %s" % (text, "does not answer" if isinstance(e, TimeoutError) else "dies"), {"text": text}, sig="dies")

def run(c):
    exe = c.build("nixd")
    rnd = random.Random(c.seed)
    con = lambda b, s, n, d, rule="innermost": dict(Bases=tset(b), Segs=segs(s), MaxNames=n, MaxDepth=d, Rule='"%s"' % rule)
    cases = c.tlc("Links", con(["lib", "pkgs"], [("aa", "aa"), ("${jj}", "")], 2, c.pick(2, 2)), invariants=["Own", "Emit"], name="nested").cases
    cases = cases if len(cases) <= c.pick(500, 10**5) else rnd.sample(cases, c.pick(500, 10**5))
    cases += c.tlc("Links", con(BASES, SEGS, 1, 1), invariants=["Own", "Emit"], name="segments").cases
    two = c.tlc("Links", con(["lib"], SEGS, 2, 1), invariants=["Own", "Emit"], name="pairs").cases
    cases += rnd.sample(two, min(len(two), c.pick(150, 10**5)))
    cases += c.tlc("Links", con(BASES[:4], SEGS, 3, 3), invariants=["Own", "Emit"], name="deep", simulate=c.pick(200, 10000), depth=40, workers=1).cases
    for rule in ("outermost", "anyBase"):
        if not c.tlc("Links", con(["lib", "pkgs"], [("aa", "aa"), ("${jj}", "")], 1, 2, rule), invariants=["Own"], name=rule, may_fail=True).violated: raise Inconclusive("the model does not tell %s" % rule)
    items, seen = [], set()
    for ps in cases:
        text = "".join(p["t"] for p in ps)
        if text in seen: continue
        seen.add(text)
        o, places = 0, []
        for p in ps:
            n = len(p["t"])
            lead = len(p["t"]) - len(p["t"].lstrip(" .("))
            # inside of a piece, where nothing else touches
            if n - lead >= 2 and "$" not in p["t"] and not p["t"].endswith("}"): places.append((o + lead + 1, p["page"]))
            o += n
        for at, want in rnd.sample(places, min(len(places), 3)): items.append((text, at, want))
    rnd.shuffle(items)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex: list(ex.map(lambda k: ask28(c, exe, items[k::16]), range(16)))
    c.sample({"text": items[0][0], "at": items[0][1], "page": items[0][2]})

if __name__ == "__main__":
    main(run, "C28")
