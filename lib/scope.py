"""Programs generated by Scope.tla, and their occurrences in the text."""
from common import *
import random

FORMS = ["let", "with", "fn", "formals", "at", "if", "app", "op", "has", "lit", "paren", "list", "str", "rec", "set", "select", "oldlet", "assert"]
BINDS = ["path", "inherit", "from", "none", "dynamic"]
def S(xs): return "{" + ", ".join('"%s"' % x for x in xs) + "}"

class Prog:
    """text, and for every piece its offset; spaces between pieces."""
    def __init__(self, k, rnd=None):
        self.k = k
        self.off = {}
        out = ""
        for i, p in enumerate(k["out"], 1):
            s = p["s"]
            # no blanks around the dot, or `a . b` would still be fine but `1 .b` not
            if out and not (s.startswith(".") or out.endswith(".") or out.endswith("${") or s.startswith("}")):
                out += rnd.choice([" ", " ", "\n", "  "]) if rnd else " "
            self.off[i] = len(out)
            out += s
        self.text = out

CONSTS = dict(DefNames=S("ab"), VarNames=S("ab"), AttrNames=S("a"), Budget=2, MaxBinds=2, Forms=S(FORMS), BindForms=S(BINDS), Globals='{"map"}', Prefixed='{"add"}', Consts='{"true"}', EmitAll="TRUE")
def programs(c, name, sim=None, limit=None, rnd=None, spec="Scope", emit="Emit", depth=150, timeout=600, **kw):
    seen, out = set(), []
    def add(k):
        key = " ".join(p["s"] for p in k["out"])
        if key not in seen:
            seen.add(key)
            out.append(k)
    c.tlc(spec, dict(CONSTS, **kw), invariants=["ResolutionSound", "UsedOnce", emit], name=name, simulate=sim, depth=depth if sim else None, workers=1 if sim else 8, on_case=add, timeout=timeout)
    if limit and len(out) > limit:
        out = rnd.sample(out, limit)
    return out
