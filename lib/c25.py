"""C25: formatting replaces the text by exactly what the configured command prints."""
from common import *
from lspbatch import *
import glob, random, shutil, threading
from concurrent.futures import ThreadPoolExecutor

UNIT = 65536
def blob(head):
    b = head.encode() + b" "
    return (b + b"x" * (UNIT - 1 - len(b)) + b"\n").decode()
def unit(u):
    return blob("# own %d é" % u[1]) if u[0] == "own" else blob("# text %d é𝄞" % u[1])
def text(n, extra=""): return "".join(unit(("text", i + 1)) for i in range(n)) + extra
OPTS = {"options": {"tabSize": 2, "insertSpaces": True}}

def after(t, reply):
    """The text after applying the reply's edits, None where they are wrong."""
    es = reply.get("result")
    if es == []: return t
    if not isinstance(es, list) or len(es) != 1: return None
    r = es[0]["range"]
    ls = t.split("\n")
    end = (r["end"]["line"], r["end"]["character"])
    if r["start"] != {"line": 0, "character": 0} or end < (len(ls) - 1, utf16(ls[-1])): return None
    return es[0]["newText"]

class Session:
    """One server with one formatting command."""
    def __init__(self, exe, command, env=None, config=None):
        self.s = start(exe, ["--config=" + json.dumps(config or {"formatting": {"command": command}})], env=env)
        self.n = 0
    def open(self, t, via=None):
        self.n += 1
        u = "file:///v/f%d.nix" % self.n
        self.s.notify("textDocument/didOpen", {"textDocument": {"uri": u, "languageId": "nix", "version": 1, "text": t if via is None else via}})
        if via is not None:
            self.s.notify("textDocument/didChange", {"textDocument": {"uri": u, "version": 2}, "contentChanges": [{"text": t}]})
        return u
    def ask(self, u): return self.s.request("textDocument/formatting", dict({"textDocument": {"uri": u}}, **OPTS))
    def replies(self, ids, timeout=45):
        got = {}
        while len(got) < len(ids):
            m = self.s.recv(timeout)
            if m is None: raise EOFError
            if "method" not in m and m.get("id") in ids: got[m["id"]] = m
            elif "id" in m and "method" in m:
                self.s.send({"jsonrpc": "2.0", "id": m["id"], "result": [None] if m["method"] == "workspace/configuration" else None})
        return [got[i] for i in ids]
    def fds(self):
        try: return len(os.listdir("/proc/%d/fd" % self.s.p.pid))
        except OSError: return -1
    def children(self):
        """commands that are still there"""
        out = []
        for f in glob.glob("/proc/[0-9]*/stat"):
            try: t = open(f).read()
            except OSError: continue
            if int(t.rsplit(")", 1)[1].split()[1]) == self.s.p.pid: out.append(t.split("(", 1)[1].rsplit(")", 1)[0])
        return out
    def end(self):
        self.s.send({"jsonrpc": "2.0", "id": "bye", "method": "shutdown"})
        self.s.notify("exit")
        self.s.close()

def replay(c, exe, fmt, cases):
    """Each command with all its texts, asked at once."""
    by = {}
    for k in cases: by.setdefault("".join(k["prog"]), []).append(k)
    def one(item):
        prog, ks = item
        out = []
        ss = Session(exe, [fmt, prog])
        try:
            ts = [text(k["n"]) for k in ks]
            us = [ss.open(t, None if i % 2 else "# before\n") for i, t in enumerate(ts)]
            # the first document is closed again: nobody formats it
            base = None
            for rnd in (1, 2):
                ids = [ss.ask(u) for u in us]
                for k, t, r in zip(ks, ts, ss.replies(ids)):
                    a = k["answer"]
                    what = "formatting %d units by the command %s" % (k["n"], prog)
                    if a["kind"] == "error":
                        if "error" not in r: out.append((what + " which fails: %.200r" % (r.get("result"),), k, prog))
                        continue
                    want = t if a["kind"] == "same" else "".join(map(unit, a["text"]))
                    if "error" in r: out.append((what + " fails: %s" % r["error"], k, prog))
                    elif after(t, r) != want: out.append((what + " yields %.60r... (%s characters) instead of %.60r... (%s)" % (
                        after(t, r), len(after(t, r) or ""), want, len(want)), k, prog))
                    elif a["kind"] == "same" and r["result"] != []: out.append((what + " yields edits for an unchanged text", k, prog))
                n = ss.fds()
                if base is not None and n > base: out.append(("the command %s leaves descriptors open (%d, then %d)" % (prog, base, n), {"prog": prog}, prog))
                base = n
                if "formatter" in ss.children(): out.append(("the command %s is never waited for" % prog, {"prog": prog}, prog))
            ss.end()
        except (EOFError, TimeoutError) as e:
            ss.s.p.kill(); ss.s.p.wait()
            out.append(("with the command %s the server %s" % (prog, "dies" if isinstance(e, EOFError) else "does not answer"), {"prog": prog}, prog))
        return out
    hung = 0
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, list(by.items())):
            c.validated += 2
            for what, case, sig in r: c.violation(what, case, sig=sig)
            hung += any("not answer" in x[0] for x in r)
    c.extra["commands"] = c.extra.get("commands", 0) + len(by)

def together(c, exe, fmt, tries, threads):
    """Commands that wait for one another after reading all of their input."""
    for k in range(tries):
        d = os.path.join(c.run, "b%d" % k)
        os.makedirs(d)
        ss = Session(exe, [fmt, "Rbt0", d, str(threads)], env={"VERIF_SCHED": "%d,700,4000" % (c.seed * 1000 + k)})
        try:
            ts = ["{ a = %d; }\n" % i + "#" * (i * 7000) for i in range(threads)]
            us = [ss.open(t) for t in ts]
            for t, r in zip(ts, ss.replies([ss.ask(u) for u in us], 40)):
                if r.get("result") != []:
                    c.violation("formatting several documents at once: %.200s" % r, {"seed": k, "reply": r}, sig="together")
                    break
            ss.end()
        except (EOFError, TimeoutError) as e:
            ss.s.p.kill(); ss.s.p.wait()
            c.violation("formatting several documents at once: the server %s" % ("dies" if isinstance(e, EOFError) else "does not answer"), {"seed": k}, sig="together")
            break
        finally:
            shutil.rmtree(d, ignore_errors=True)
        c.validated += 1

def singles(c, exe, fmt):
    """Arguments, descriptors, failures, and the text asked about."""
    def one(command, t, want, what, via=None, config=None, env=None):
        """want: the text afterwards, None for an error"""
        ss = Session(exe, command, config=config, env=env)
        c.validated += 1
        try:
            u = ss.open(t, via)
            r, = ss.replies([ss.ask(u)])
            if want is None and "error" not in r: c.violation("%s: %.200s instead of an error" % (what, r), {"command": command, "reply": r}, sig=what)
            if want is not None and after(t, r) != want: c.violation("%s: %.300s instead of %.100r" % (what, r, want), {"command": command, "text": t, "reply": r}, sig=what)
            other, = ss.replies([ss.s.request("textDocument/documentSymbol", {"textDocument": {"uri": u}})])
            ss.end()
        except (EOFError, TimeoutError) as e:
            ss.s.p.kill(); ss.s.p.wait()
            c.violation("%s: the server %s" % (what, "dies" if isinstance(e, EOFError) else "does not answer"), {"command": command}, sig=what)
    W = ["nosuchworker"]
    for args in (["a b"], ["", "x"], ["$HOME", "*", "'\""], ["é𝄞", "-x", "--"], ["a\nb"]):
        one([fmt, "a0"] + args, "1", "".join(a + "\n" for a in args), "the command's arguments %r" % args)
    fake = os.path.join(VERIF, "harness", "fake_worker.py")
    one([fmt, "f0"], "1", "0\n1\n2\n", "descriptors of the command")
    one([fmt, "f0"], "1", "0\n1\n2\n", "descriptors of the command beside workers", env={"NIXD_ATTRSET_EVAL": fake})
    one([], "1", None, "no command")
    one([os.path.join(c.run, "missing")], "1", None, "a command that does not exist")
    one([c.run], "1", None, "a command that cannot be run")
    one([fmt, "i0"], "1", None, "a command printing no UTF-8")
    one([fmt, "Ri1"], "1", None, "a failing command printing no UTF-8")
    one([fmt, "0"], "{ }", "", "a command printing nothing")
    one([fmt, "0"], "", "", "a command printing nothing for nothing")
    # whatever the text is
    for t in ("", "1", "{", "a\r\nb\r\n", "é𝄞\n", "\n\n\n", "x: \t", "''\0''", "{ a = 1; }\n" * 3, "\ufeff1"):
        one([fmt, "Rt0"], t, t, "an unchanged text %r" % t)
        one([fmt, "Rtt0"], t, t + t, "a doubled text %r" % t)
        one([fmt, "Rtt0"], t, t + t, "a doubled text %r after a change" % t, via="{ b }")
    # large ones, in pieces of all sizes
    for n in (16383, 60001):
        t = "1\n" + "".join("# a = %d; %s\n" % (i, "é" * (i % 37)) for i in range(n))
        one([fmt, "Rt0"], t, t, "an unchanged text of %d lines" % n)
        one(["sed", "-u", "s/a = /bb = /"], t, t.replace("a = ", "bb = "), "a text of %d lines edited line by line" % n)
        one(["sed", "s/a = /c=/"], t, t.replace("a = ", "c="), "a text of %d lines edited" % n)
    # the setting may be the command itself
    one(["command"], "1", "1", "the command itself", config={"formatting": {"command": ["cat"]}})
    one(["command"], "1", "1", "the command as text", config={"formatting": "cat"})
    # documents that are not open
    ss = Session(exe, [fmt, "Rt0"])
    try:
        u = ss.open("1")
        ss.s.notify("textDocument/didClose", {"textDocument": {"uri": u}})
        for v in (u, "file:///v/none.nix", "file:///v/a%ff%fe.nix", "file:///v/%00.nix", "file:///v/" + "x" * 5000):
            r, = ss.replies([ss.ask(v)])
            c.validated += 1
            if "error" not in r: c.violation("formatting %.40s which is not open: %s" % (v, r), {"uri": v}, sig=v[:40])
        ss.end()
    except (EOFError, TimeoutError) as e:
        ss.s.p.kill(); ss.s.p.wait()
        c.violation("formatting documents that are not open: the server dies or does not answer", {}, sig="closed")

def run(c):
    exe, sched = c.build("nixd", "nixd_sched")
    rnd = random.Random(c.seed)
    fmt = os.path.join(c.run, "formatter")
    subprocess.check_call(["gcc", "-O1", "-w", "-o", fmt, os.path.join(VERIF, "harness", "formatter.c")])
    # the pipes: nobody waits forever, whatever the command does
    progs = lambda steps, k: "{p \\in Commands({%s}, %d) : Sane(p)}" % (", ".join('"%s"' % s for s in steps), k)
    r = c.tlc("Format", dict(Progs=progs("rRwteco", c.pick(3, 4)), Texts="0..%d" % c.pick(2, 3), Mode='"both"'), spec="Spec", invariants=["Faithful", "Emit"], props=["Answered"], name="pipes")
    for mode in ("feedFirst", "noErr"):
        n = c.tlc("Format", dict(Progs=progs("Rwe", 3), Texts="0..3", Mode='"%s"' % mode), spec="Spec", invariants=["Faithful"], props=["Answered"], name="pipes_" + mode, may_fail=True)
        if not n.violated: raise Inconclusive("the model does not need what %s lacks" % mode)
    cases = list({json.dumps(k, sort_keys=True): k for k in r.cases}.values())
    # the model's answer is a function of the command and its text
    seen = {}
    for k in cases: seen.setdefault(("".join(k["prog"]), k["n"]), []).append(k)
    cases = [v[0] for v in seen.values() if len(v) == 1]
    ps = sorted({"".join(k["prog"]) for k in cases})
    keep = set(ps if c.thorough else rnd.sample(ps, min(len(ps), 400)))
    replay(c, exe, fmt, [k for k in cases if "".join(k["prog"]) in keep])
    # the processes: nobody holds another's pipe
    for how, first, fails in (("locked", "[p \\in 1..3 |-> IF p = 3 THEN {} ELSE {p + 1}]", False), ("late", "[p \\in 1..2 |-> IF p = 2 THEN {} ELSE {p + 1}]", True), ("never", "[p \\in 1..2 |-> IF p = 2 THEN {} ELSE {p + 1}]", True)):
        n = c.tlc("Inherit", dict(Procs="1..%d" % (2 if fails else 3), First=first, How='"%s"' % how), spec="Spec", invariants=[] if fails else ["Alone"], props=["AllDone"], name="inherit_" + how, may_fail=fails)
        if n.violated != fails: raise Inconclusive("Inherit/%s" % how)
    together(c, sched, fmt, c.pick(8, 150), 4)
    singles(c, exe, fmt)

if __name__ == "__main__":
    main(run, "C25")
