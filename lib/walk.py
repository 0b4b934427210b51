"""Walks over the trees the real parser returns, for spec/TreeWalk.tla."""
import json, os
from common import *

def events(n, out):
    kind, r, ex, ch = n
    out.append(["E"] + [r[0], r[1], r[2], r[3], r[4], r[5]])
    kids = [c for c in ch if c is not None]
    if kind in ("ExprAttrs", "ExprLegacyLet"):
        # the keyword `let` is recorded as what makes the set recursive; it
        # lies before the set, or (let { }) at its start (see DESIGN.md)
        kids = [c for c in kids if c[0] != "Misc"]
    for c in sorted(kids, key=lambda c: (c[1][0], c[1][1])):
        events(c, out)
    out.append(["L"])

def walk_of(i, src, rep):
    """rep: reply of nixf_h with modes t and d."""
    b = src if isinstance(src, bytes) else src.encode("utf-8", "surrogateescape")
    ev = []
    if rep.get("t") is not None:
        events(rep["t"], ev)
    for d in rep.get("d", []) + rep.get("vd", []):
        ev.append(["D"] + d["r"])
        for n in d["notes"]: ev.append(["D"] + n[1])
        for f in d["fixes"]:
            for e in f[1]: ev.append(["D"] + e[0])
    return {"id": i, "n": len(b), "nl": [k for k, x in enumerate(b) if x == 10], "ev": ev}

def validate(c, walks, describe, name="walks", chunk=4000, sig=None):
    """Checks all walks with TLC; reports rejected ones."""
    seen = {}
    for w in walks:   # identical walks need only be checked once
        seen.setdefault(json.dumps([w["n"], w["nl"], w["ev"]]), w)
    ws = list(seen.values())
    for k in range(0, len(ws), chunk):
        f = os.path.join(c.run, "%s_%d.ndjson" % (name, k))
        with open(f, "w") as o:
            for w in ws[k:k + chunk]:
                o.write(json.dumps(w) + "\n")
        r = c.tlc("TreeWalk", invariants=["Complete", "Nested"], name="TreeWalk_%s_%d" % (name, k), env={"WALKS": f}, quiet=True)
        for rej in r.cases:
            c.violation("walk rejected: %s: event %s cannot follow (parent %s)" % (describe(rej["id"]), rej["ev"], rej["parent"]),
                        dict(rej, text=describe(rej["id"])), sig=sig and sig(rej["id"]))
    c.extra["walks_validated"] = c.extra.get("walks_validated", 0) + len(ws)
    c.log("TLC validated %d distinct walks (%d events)" % (len(ws), sum(len(w["ev"]) for w in ws)))
