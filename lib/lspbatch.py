"""Asks the real server about many documents: N server processes, requests pipelined."""
import threading, os
from lsp import Server
from common import *

def utf16(s): return len(s.encode("utf-16-le")) // 2
def pos(text, off):
    """LSP position of a character offset."""
    l = text.count("\n", 0, off)
    return {"line": l, "character": utf16(text[text.rfind("\n", 0, off) + 1:off])}
def off(text, p):
    """character offset of an LSP position (None: outside)"""
    ls = text.split("\n")
    if p["line"] >= len(ls): return None
    o = sum(len(x) + 1 for x in ls[:p["line"]])
    u, line = 0, ls[p["line"]]
    for k, ch in enumerate(line + "\n"):
        if u == p["character"]: return o + k
        u += utf16(ch)
    return None
def rng(text, r): return (off(text, r["start"]), off(text, r["end"]))
def apply_edits(text, edits):
    """Applies LSP text edits; None if they overlap or lie outside."""
    es = []
    for i, e in enumerate(edits):
        a, b = rng(text, e["range"])
        if a is None or b is None or a > b: return None
        es.append((a, b, i, e["newText"]))
    es.sort()
    out, last = "", 0
    for a, b, i, t in es:
        if a < last: return None
        out += text[last:a] + t
        last = b
    return out + text[last:]

INIT = {"processId": None, "rootUri": None, "capabilities": {"textDocument": {"publishDiagnostics": {"versionSupport": True}, "documentSymbol": {"hierarchicalDocumentSymbolSupport": True},
        "codeAction": {"codeActionLiteralSupport": {"codeActionKind": {"valueSet": [""]}}}}}}
class Doc:
    """text and requests [(method, params without textDocument)]; afterwards replies and diags."""
    def __init__(self, text, reqs, tag=None, uri=None):
        self.text, self.reqs, self.tag, self.uri = text, reqs, tag, uri
        self.replies = [None] * len(reqs)
        self.diags = None
        self.dead = None
    def at(self, o): return pos(self.text, o)

def start(exe, args=(), env=None, init=None):
    s = Server(exe, args, env=dict({"NIXD_ATTRSET_EVAL": "/nonexistent/worker"}, **(env or {})))
    s.init = s.wait_reply(s.request("initialize", init or INIT), 60)
    s.notify("initialized", {})
    return s

def _chunk(s, docs):
    todo = {}
    for d in docs:
        s.notify("textDocument/didOpen", {"textDocument": {"uri": d.uri, "languageId": "nix", "version": 1, "text": d.text}})
    byuri = {d.uri: d for d in docs}
    left = set(byuri)
    def other(m):
        if m.get("method") == "textDocument/publishDiagnostics":
            u = m["params"]["uri"]
            if u in left:
                byuri[u].diags = m["params"]["diagnostics"]
                left.discard(u)
        elif "id" in m and "method" in m:
            s.send({"jsonrpc": "2.0", "id": m["id"], "result": [None] if m["method"] == "workspace/configuration" else None})
    while left:
        m = s.recv(60)
        if m is None: raise EOFError
        other(m)
    for d in docs:
        for k, (meth, par) in enumerate(d.reqs):
            todo[s.request(meth, dict({"textDocument": {"uri": d.uri}}, **par) if not meth.endswith("resolve") else par)] = (d, k)
    while todo:
        m = s.recv(60)
        if m is None: raise EOFError
        if "method" not in m and m.get("id") in todo:
            d, k = todo.pop(m["id"])
            d.replies[k] = m
        else:
            other(m)
    kept = [d.diags for d in docs]
    for d in docs:
        s.notify("textDocument/didClose", {"textDocument": {"uri": d.uri}})
    left = set(byuri)
    while left:                       # the diagnostics of a closed document are cleared
        m = s.recv(60)
        if m is None: raise EOFError
        other(m)
    for d, k in zip(docs, kept): d.diags = k

def ask(exe, docs, procs=8, chunk=25, **kw):
    """Fills in replies and diags of docs; d.dead where the server died on a document."""
    for i, d in enumerate(docs):
        d.uri = d.uri or "file:///v/d%d.nix" % i
    procs = max(1, min(procs, len(docs) // 20 + 1))
    err = []
    def work(k):
        mine = docs[k::procs]
        s = None
        deaths = 0
        work_list = [mine[i:i + chunk] for i in range(0, len(mine), chunk)]
        while work_list:
            ch = work_list.pop(0)
            try:
                if s is None: s = start(exe, **kw)
                _chunk(s, ch)
            except (EOFError, TimeoutError) as e:
                s.p.kill(); s.p.wait()
                s = None
                if len(ch) == 1:
                    ch[0].dead = "the server %s" % ("died (status %s)" % "?" if isinstance(e, EOFError) else "does not answer")
                    deaths += 1
                    if deaths > 20: break
                else:
                    for d in ch: d.replies, d.diags = [None] * len(d.reqs), None
                    work_list = [[d] for d in ch] + work_list
            except Exception as e:
                err.append(e); raise
        if s:
            s.send({"jsonrpc": "2.0", "id": "bye", "method": "shutdown"})
            s.notify("exit")
            s.close()
    ths = [threading.Thread(target=work, args=(k,)) for k in range(procs)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    if err: raise err[0]
    return docs
