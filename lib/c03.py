"""C03: every call gets exactly one answer, delivered to its own caller."""
from common import *
from lsp import Server
import random, threading, collections

IDS = {"int": lambda n: 1000 + n, "str": lambda n: "r%d é𝄞\"\\ " % n, "neg": lambda n: -n - 1, "big": lambda n: 2**53 - n, "numstr": lambda n: str(n),
       "same": lambda n: 42, "empty": lambda n: "", "one": lambda n: 1}
WEIRD = ["0", -1, 2**32 + 1, 2**31, "1", None, [1], {"a": 1}, True, "", 1.5, -2**31, 2**62]

class Client:
    def __init__(self, exe, env, rnd):
        self.s = Server(exe, env=dict(ASAN_ENV, **env), stderr=subprocess.DEVNULL)
        self.rnd = rnd
        self.ids = {}        # outgoing ids as named by the specification -> as sent
        self.names = {}
        self.used = set()
    def norm(self, m):
        if m is None: return ("eof",)
        if m.get("method") == "ask":
            if json.dumps(m["id"]) in self.used: return ("ask with an id used before", m["id"])
            self.used.add(json.dumps(m["id"]))
            self.ids[m["params"]] = m["id"]
            return ("ask", m["params"])
        if m.get("method") == "ran":
            p = m["params"]
            return ("ran", p["tag"], "error" if p.get("error") else json.dumps(p.get("result")))
        if "method" in m: return ("notification", json.dumps(m))
        if "error" in m: return ("error", json.dumps(m["id"])) if "result" not in m else ("error and result", json.dumps(m["id"]))
        if "result" in m: return ("reply", json.dumps(m["id"]), json.dumps(m["result"]))
        return ("neither result nor error", json.dumps(m))

def play(exe, hist, rnd, env):
    """None, or what is wrong."""
    c = Client(exe, env, rnd)
    s = c.s
    keys, done = {}, []
    R = lambda **m: dict({"jsonrpc": "2.0"}, **m)
    payload = lambda: rnd.choice([{"a": [1, "é\u0000\n", None]}, [], "x" * 3000, None, 7, {"id": 1, "method": "echo"}])
    try:
        for n, st in enumerate(hist):
            op, k = st["op"], st["op"]["k"]
            rid = IDS[op["id"]](n) if "id" in op and isinstance(op["id"], str) else None
            want = collections.Counter()
            sent = None
            if k in ("echo", "fail", "unknown", "typed", "mistyped", "later", "note-as-call"):
                pl = payload()
                meth, par = {"echo": ("echo", pl), "fail": ("fail", "why"), "unknown": (rnd.choice(["nothing/here", "", "Echo", "ech", "echo2", "exit", "$/nothing", "$/cancelRequest"]) , pl), "typed": ("typed", {"n": 7}),
                             "mistyped": ("typed", rnd.choice([{"n": "x"}, {}, None, [1], {"m": 7}, 5])), "later": ("later", {"k": op.get("key")}), "note-as-call": ("release", {"k": -1})}[k]
                sent = R(id=rid, method=meth, params=par)
                if par is None and rnd.random() < .5: del sent["params"]
                keys[op.get("key")] = rid
                if k == "echo": want[("reply", json.dumps(rid), json.dumps(par))] += 1
                elif k == "typed": want[("reply", json.dumps(rid), "7")] += 1
                elif k != "later": want[("error", json.dumps(rid))] += 1
            elif k == "release":
                sent = R(method="release", params={"k": op["key"], "ok": op["ok"], "thread": op["th"]})
                want[("reply", json.dumps(keys[op["key"]]), str(op["key"])) if op["ok"] else ("error", json.dumps(keys[op["key"]]))] += 1
            elif k == "call":
                sent = R(method="call", params={"tags": op["tags"]})
            elif k == "answer":
                if op["id"] and "t%d" % op["id"] in c.ids: i = c.ids["t%d" % op["id"]]
                elif op["pick"] == "next":
                    ints = [x for x in c.ids.values() if isinstance(x, int)]
                    i = max(ints, default=0) + 1
                else: i = rnd.choice(WEIRD)
                tag = "t%d" % op["id"]
                sent = R(id=i, **{"result": {"result": tag}, "null": {"result": None}, "error": {"error": {"code": -1, "message": "no"}}, "bad-error": rnd.choice([{"error": "text"}, {}, {"error": None}])}[op["how"]])
            elif k == "eof":
                s.p.stdin.close()
            else:
                sent = {"unknown-note": R(method=rnd.choice(["nothing", "$/cancelRequest", "$/x", "exitx"]), params={"id": 1}), "mistyped-note": R(method="typed", params={"n": []}), "method-as-note": R(method="echo", params=1),
                        "note-as-response": R(method="typed", params=None), "no-version": {"id": 5, "method": "echo", "params": 1}, "wrong-version": {"jsonrpc": "1.0", "id": 5, "method": "echo"},
                        "not-object": rnd.choice([[1], 5, "x", None, [{"jsonrpc": "2.0", "id": 1, "method": "echo"}]]), "no-id-response": R(result=5), "release-nothing": R(method="release", params={"k": -1, "ok": True, "thread": False})}[k]
            for o in st["outs"]:
                if o["k"] == "ask": want[("ask", o["x"])] += 1
                elif o["k"] == "ran": want[("ran", o["id"], "error" if o["x"] == "error" else "null" if o["x"] == "null" else json.dumps(o["x"]))] += 1
            if k == "answer" and op["how"] in ("null", "bad-error") and want:
                # a malformed error may count as an error or as an empty result
                pass
            done.append(sent or k)
            if sent is not None: s.send(sent)
            got = collections.Counter()
            if k != "eof":
                mark = "mark%d" % n
                s.send(R(id=mark, method="echo", params=mark))
                while True:
                    m = s.recv(40)
                    if m is not None and m.get("id") == mark: break
                    got[c.norm(m)] += 1
                    if m is None: break
            else:
                while True:
                    m = s.recv(40)
                    if m is None: break
                    got[c.norm(m)] += 1
            if k == "answer" and op["how"] == "bad-error":
                fix = lambda cn: collections.Counter({(x[0], x[1], "null") if x[0] == "ran" and x[2] == "error" else x: v for x, v in cn.items()})
                got, want = fix(got), fix(want)
            if got != want:
                return "after %s the server sends %s instead of %s (all: %s)" % (json.dumps(sent or k, ensure_ascii=False)[:200], dict(got - want), dict(want - got), json.dumps(done[-6:], ensure_ascii=False)[:400]), done
        rc = s.p.wait(20)
        if rc != 0: return "exit status %d after the end of the input" % rc, done
    except (TimeoutError, subprocess.TimeoutExpired):
        return "no answer after %s" % json.dumps(done[-3:], ensure_ascii=False)[:400], done
    finally:
        s.p.kill(); s.p.wait()

def storm(exe, rnd, env, threads, calls, order, limit):
    """Calls by several threads at once; the client replies in any order."""
    s = Server(exe, env=dict(ASAN_ENV, **env))
    try:
        s.notify("storm", {"threads": threads, "calls": calls, "notes": rnd.choice([0, calls]), "pad": ""})
        asked, ran, wait = {}, {}, []
        n, lost = threads * calls, 0
        while len(ran) < n:
            try: m = s.recv(0.05 if wait and order != "none" else 30)
            except TimeoutError:
                m = None
                if not wait: return "%d of %d continuations have run, nothing more comes" % (len(ran), n)
            if m is not None:
                if m.get("method") == "ask":
                    if m["id"] in asked: return "id %s is used for %s and %s" % (m["id"], asked[m["id"]], m["params"])
                    asked[m["id"]] = m["params"]
                    wait.append(m["id"])
                elif m.get("method") == "ran":
                    t = m["params"]["tag"]
                    if t in ran: return "the continuation of %s runs again" % t
                    ran[t] = m["params"]
                    if m["params"].get("error"): lost += 1
                    elif m["params"]["result"] != t: return "the continuation of %s gets the reply %s" % (t, m["params"]["result"])
            go = {"all": wait, "one": wait[:1], "late": wait if len(wait) >= n - len(ran) or m is None else [], "some": rnd.sample(wait, len(wait) // 2) if len(wait) > 3 or m is None else []}.get(order, [])
            if m is None and not go: go = list(wait)
            go = list(go)
            rnd.shuffle(go)
            for i in go:
                wait.remove(i)
                for _ in range(rnd.choice([1, 1, 1, 2])): s.send({"jsonrpc": "2.0", "id": i, "result": asked[i]})
        s.request("echo", 1, id="end")
        extra = []
        while True:
            m = s.recv(30)
            if m is None: return "the server ended"
            if m.get("id") == "end": break
            if m.get("method") == "ran": extra.append(m["params"])
            if m.get("method") == "ask":
                if m["id"] in asked: return "id %s is used twice" % m["id"]
                asked[m["id"]] = m["params"]
        if extra: return "continuations have run again: %s" % extra
        if n <= limit and lost: return "%d of %d calls were given up although all may be outstanding" % (lost, n)
    except (TimeoutError, EOFError):
        return "no answer"
    finally:
        s.p.kill(); s.p.wait()

def limit_of(exe):
    """How many calls may be outstanding: the number the server itself shows."""
    s = Server(exe, env=ASAN_ENV)
    s.notify("call", {"tags": ["t%d" % i for i in range(2000)]})
    s.request("echo", 1, id="end")
    gone = []
    while True:
        m = s.recv(40)
        if m is None: raise Inconclusive("the probe ended")
        if m.get("id") == "end": break
        if m.get("method") == "ran": gone.append(m["params"]["tag"])
    s.p.kill(); s.p.wait()
    return 2000 - len(gone)

def run(c):
    exe = c.build("rpc_h")
    rnd = random.Random(c.seed)
    # schedules
    for sp, th, ca, mx in (("TRUE", 2, 1, 2), ("FALSE", 2, 2, 2), ("FALSE", 3, 1, 1)) + c.pick((), (("FALSE", 3, 2, 3),)):
        r = c.tlc("RpcThreads", dict(Threads="{%s}" % ", ".join('"a%d"' % i for i in range(th)), Calls=ca, Max=mx, Split=sp), invariants=["UniqueIds", "Once", "Own", "All"], name="threads_%s%d%d%d" % (sp, th, ca, mx), may_fail=True)
        if r.violated != (sp == "TRUE"): raise Inconclusive("TLC's verdict on RpcThreads %s is unexpected" % sp)
    lim = limit_of(exe)
    c.extra["outstanding calls"] = lim
    c.log("%d calls may be outstanding" % lim)
    inv = ["Limited", "Fresh", "Once", "Accounted", "OldestGivenUp", "Complete", "OneReply", "Emit"]
    picks = '{"oldest", "newest", "middle", "answered", "given", "next", "weird"}'
    # the specification itself, exhaustively with a small limit
    c.tlc("Rpc", dict(Max=2, Bursts="{1, 3}", Ids='{"int"}', Picks=picks, MinOps=c.pick(3, 4), MaxOps=c.pick(3, 4)), invariants=inv[:-1], name="small")
    cases = []
    small = min(3, lim)
    for nm, b, ids, lo, hi, num in (("calls", "{1, 2, %d, %d, %d}" % (small, lim, lim + 7), '{"int"}', 4, 9, c.pick(300, 3000)), ("requests", "{1}", "{%s}" % ", ".join('"%s"' % x for x in IDS), 5, 30, c.pick(500, 6000)),
                               ("mixed", "{1, 5, %d}" % (lim - 3), '{"int", "str", "same"}', 8, 30, c.pick(120, 3000))):
        r = c.tlc("Rpc", dict(Max=lim, Bursts=b, Ids=ids, Picks=picks, MinOps=lo, MaxOps=hi), invariants=["Limited", "Once", "Emit"], name=nm, simulate=num, depth=hi + 3, workers=1)
        cases += r.cases
    cases = list({json.dumps(x): x for x in cases}.values())
    jobs = [("hist", x) for x in cases]
    for th, ca in [(2, 1), (2, 5), (4, 5), (8, 3), (4, 20), (8, 30), (3, 100)] * c.pick(3, 60):
        for o in ("all", "one", "late", "some"): jobs.append(("storm", (th, ca, o)))
    rnd.shuffle(jobs)
    lock, errs = threading.Lock(), []
    def work(k):
        try:
            for n in range(k, len(jobs), 12):
                kind, x = jobs[n]
                r2 = random.Random(c.seed * 7919 + n)
                env = r2.choice([{}, {"VERIF_IO": "%d,%d" % (n, r2.choice([50, 500]))}, {"VERIF_SCHED": "%d,%s" % (n, r2.choice(["100,300", "500,200", "20,3000"]))}])
                if kind == "hist": w = play(exe, x, r2, env)
                else: w = storm(exe, r2, env, *x, lim)
                with lock:
                    c.validated += 1
                    if w and kind == "hist": c.violation(w[0], {"history": w[1], "env": env})
                    elif w: c.violation("%d threads making %d calls each, replied to %s (%s): %s" % (x + (env, w)), {"storm": x, "env": env})
                    elif kind == "hist" and len(x) > 8: c.sample([st["op"] for st in x][:8], 3)
        except Exception as e: errs.append(e); raise
    ts = [threading.Thread(target=work, args=(k,)) for k in range(12)]
    [t.start() for t in ts]; [t.join() for t in ts]
    if errs: raise errs[0]

if __name__ == "__main__":
    main(run, "C03")
