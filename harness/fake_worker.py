#!/usr/bin/python3 -SEB
"""A scripted stand-in for nixd-attrset-eval, started by nixd through NIXD_ATTRSET_EVAL.

VERIF_WORKER names a directory: what is asked is appended to <role>.<pid>.log, one JSON
list [method, params] a line; <role> is the first expression evaluated.  answers.json there, if
it exists, gives the attributes that are known: {"Name": {...}} nested, leaves are descriptions.

Without it the names asked for tell what to do: m_MODE, see below.  Nothing but the
names in a request has influence, so that what happens does not depend on the schedule."""
import json, os, sys, time
import worker_names

DIR = os.environ.get("VERIF_WORKER", "")
out = os.fdopen(os.dup(1), "wb", 0)
inp = os.fdopen(os.dup(0), "rb")
role, log = None, None

def frame(b): return b"Content-Length: %d\r\n\r\n" % len(b) + b
def put(b):
    try: out.write(b)
    except OSError: os._exit(3)
def reply(i, r=None, err=None):
    m = {"jsonrpc": "2.0", "id": i}
    if err is None: m["result"] = r
    else: m["error"] = {"code": -32001, "message": err}
    put(frame(json.dumps(m).encode()))

LOC = {"uri": "file:///nix/some%20where.nix", "range": {"start": {"line": 3, "character": 4}, "end": {"line": 3, "character": 9}}}
OPT = {"Description": "d", "Declarations": [LOC, LOC], "Definitions": [], "Example": "{ a = \"$}\\\\\"; }", "Default": "1", "Type": {"Name": "int", "Description": "integer"}}
POS = ["/nix/a.nix:7", "/nix/a.nix", "", ":", "a.nix:1", "/a.nix:x", "/a.nix:", "/a.nix:99999999999999999999", "/a.nix:-5", "/a:b.nix:12", "x", "/a.nix:3:4", "/nix/\u00e9\U0001d11e b.nix:2", "/a.nix: 7", "~/a.nix:1", "./a", "/:1"]
def info(mode):
    d = {"Meta": {"Type": 1, "Location": LOC}, "PackageDesc": {"Name": "n-1", "PName": "n", "Version": "1.0", "Description": "de", "LongDescription": "lo", "Position": POS[0], "Homepage": "http://h"},
         "ValueDesc": {"arity": 2, "doc": "a doc", "args": ["x", "y"]}}
    if mode.startswith("pos"): d["PackageDesc"]["Position"] = POS[int(mode[3:]) % len(POS)]
    elif mode == "meta": d["PackageDesc"] = {}
    elif mode == "badloc": d["PackageDesc"] = {}; d["Meta"]["Location"] = {"uri": "rel", "range": LOC["range"]}
    elif mode == "httploc": d["PackageDesc"] = {}; d["Meta"]["Location"] = dict(LOC, uri="http://x")
    elif mode == "empty": d = {"Meta": {"Type": 1}, "PackageDesc": {}}
    elif mode == "notype": d["Meta"].pop("Type")
    elif mode == "nullval": d["ValueDesc"] = None; d["PackageDesc"]["Version"] = None
    elif mode == "badval": d["ValueDesc"] = {"arity": "two"}
    elif mode == "unicode": d["PackageDesc"].update(Version="\U0001d11e\u0000\n", Description="```\u2028")
    return d
def names(mode, prefix):
    n = {"many": 1000, "thirty": 30, "thirtyone": 31}.get(mode, 3)
    return ["%s%d" % (prefix or "n", i) for i in range(n)] + ([""] if mode == "empty" else [])
def canned(method, p, mode):
    if method == "attrset/evalExpr": return None
    if mode == "echo":   # every answer tells what was asked for
        q = ".".join(p) if isinstance(p, list) else ""
        if method == "attrset/attrpathInfo": return {"Meta": {"Type": 1}, "PackageDesc": {"Description": "<%s>" % q, "Version": "<%s>" % q, "Position": "/nix/<%s>:7" % q}}
        if method == "attrset/optionInfo": return {"Description": "<%s>" % q, "Declarations": [dict(LOC, uri="file:///opt/" + q.replace(" ", "%20"))], "Definitions": []}
        if method.endswith("omplete"): ns = worker_names.echo(p["Scope"], p["Prefix"]); return ns if method == "attrset/attrpathComplete" else [{"Name": n} for n in ns]
    if mode[:1] == "k" and method.endswith("omplete"):
        fs = [(worker_names.name(k, i, p["Prefix"]), worker_names.option(k, i)) for i, k in enumerate(mode[1:])]
        return [n for n, _ in fs] if method == "attrset/attrpathComplete" else [{"Name": n, **({"Description": o} if o else {})} for n, o in fs]
    if method == "attrset/attrpathInfo": return info(mode)
    if method == "attrset/attrpathComplete": return names(mode, p.get("Prefix", ""))
    if method == "attrset/optionInfo":
        o = dict(OPT)
        if mode == "empty": o = {"Declarations": [], "Definitions": []}
        elif mode == "badloc": o["Declarations"] = [dict(LOC, uri="rel"), LOC]
        elif mode == "nullval": o.update(Description=None, Example=None, Default=None, Type=None)
        elif mode == "notype": o.pop("Type")
        return o
    if method == "attrset/optionComplete":
        return [{"Name": n} if i % 3 == 0 else {"Name": n, "Description": dict(OPT, **({"Example": None} if i % 3 == 1 else {}))} for i, n in enumerate(names(mode, p.get("Prefix", "")))]
    return None

WRONG = [5, "x", [], {}, [1, 2], {"Meta": 5}, [{"Name": 5}], {"Meta": {}, "PackageDesc": []}, True, [[]], {"Declarations": 5}, [None], {"Meta": {"Type": "x"}, "PackageDesc": {"Name": 5}}]
def act(mode, i, method, p):
    ok = lambda: reply(i, canned(method, p, mode))
    if mode == "err": reply(i, err="evaluation failed: \u00e9")
    elif mode == "null": reply(i, None)
    elif mode.startswith("wrong"): reply(i, WRONG[int(mode[5:]) % len(WRONG)])
    elif mode == "garbage": put(frame(b"{ no json")); ok()
    elif mode == "nonutf": put(frame(b'{"jsonrpc":"2.0","id":%d,"result":["\xff\xfe"]}' % i)); ok()
    elif mode == "header": put(b"Foo: bar\r\n\r\n" + b"Content-Length: x\r\n\r\n"); ok()
    elif mode == "late": time.sleep(0.12); ok()
    elif mode == "die": os._exit(9)
    elif mode == "half": b = frame(json.dumps({"jsonrpc": "2.0", "id": i, "result": canned(method, p, "")}).encode()); put(b[:len(b) - 3]); os._exit(0)
    elif mode == "headdie": put(b"Content-Len"); os._exit(0)
    elif mode == "hup": out.close(); os.close(1); inp.read(); os._exit(0)
    elif mode == "dup": ok(); ok()
    elif mode == "ids":
        for x in ("abc", None, -1, 0, 2**40, 1.5, [i], {}, i + 1000): put(frame(json.dumps({"jsonrpc": "2.0", "id": x, "result": 5}).encode()))
        ok()
    elif mode == "asks":
        put(frame(json.dumps({"jsonrpc": "2.0", "id": 1, "method": "no/such", "params": {}}).encode()))
        put(frame(json.dumps({"jsonrpc": "2.0", "method": "$/progress", "params": 5}).encode()))
        ok()
    elif mode == "both": put(frame(json.dumps({"jsonrpc": "2.0", "id": i, "result": canned(method, p, ""), "error": {"code": 1, "message": "m"}}).encode()))
    elif mode == "neither": put(frame(json.dumps({"jsonrpc": "2.0", "id": i}).encode()))
    elif mode == "exit": put(frame(json.dumps({"jsonrpc": "2.0", "method": "exit"}).encode()))  # and no reply
    elif mode == "stuck": time.sleep(3600)
    elif mode == "ignore": pass
    else: ok()

def modes(x):
    """The first m_MODE in the names asked for."""
    if isinstance(x, str):
        for w in x.replace(".", " ").split():
            if w.startswith("m_"): return w[2:]
        return None
    for y in (x.values() if isinstance(x, dict) else x if isinstance(x, list) else []):
        m = modes(y)
        if m is not None: return m
    return None

def known(method, p, answers):
    """Answers of a scripted evaluator: what is at a path."""
    t = answers
    for n in p["Scope"] if method.endswith("omplete") else p:
        t = t.get(n) if isinstance(t, dict) and "!" not in t else None
        if t is None: return "no", None
    if method.endswith("omplete"):
        if not isinstance(t, dict) or "!" in t: return "no", None
        ns = sorted(n for n in t if n.startswith(p["Prefix"]) and n != "!")
        return "ok", ns if method == "attrset/attrpathComplete" else [{"Name": n, **({"Description": t[n]["!"]} if isinstance(t[n], dict) and "!" in t[n] else {})} for n in ns]
    return ("ok", t["!"]) if isinstance(t, dict) and "!" in t else ("no", None)

answers = None
if DIR:
    try: answers = json.load(open(DIR + "/answers.json"))
    except OSError: pass
    open(DIR + "/pid.%d" % os.getpid(), "w").close()
while True:
    n = None
    while True:
        line = inp.readline()
        if not line: sys.exit(0)
        line = line.strip()
        if not line: break
        k, _, v = line.partition(b":")
        if k.lower() == b"content-length": n = int(v)
    m = json.loads(inp.read(n))
    if m.get("method") == "exit": sys.exit(0)
    if "id" not in m or "method" not in m: continue
    p = m.get("params")
    if role is None:
        role = "".join(ch if ch.isalnum() or ch == "_" else "-" for ch in str(p))[:40]
        if role not in os.environ.get("VERIF_ROLES", role).split(","): sys.exit(1)
        if DIR: log = open(DIR + "/%s.%d.log" % (role, os.getpid()), "w")
    if log: log.write(json.dumps([m["method"], p]) + "\n"); log.flush()
    if answers is not None and m["method"] != "attrset/evalExpr":
        k, r = known(m["method"], p, answers.get(role, {}))
        if k == "ok": reply(m["id"], r)
        else: reply(m["id"], err="no such attribute")
        continue
    act(modes(p) or os.environ.get("VERIF_ANSWER", "ok"), m["id"], m["method"], p)
