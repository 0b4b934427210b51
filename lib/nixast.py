"""The trees of the real parser as the expressions of spec/Denote.tla."""
from common import *

def node(k, n="", r=False, c=(), b=(), s=()): return {"k": k, "n": n, "r": r, "c": list(c), "b": list(b), "s": list(s)}
NONE = node("x", "<nothing>")
def kids(n, *kinds): return [c for c in n[3] if c and (not kinds or c[0] in kinds)]
def is_expr(n): return n[0].startswith("Expr")
def exprs(n):
    """nearest expressions below n"""
    out = []
    for c in n[3]:
        if c: out += [c] if is_expr(c) else exprs(c)
    return sorted(out, key=lambda c: c[1][0])

class Ast:
    """src: bytes.  loop: offset of a binding `x = x` that is read as `inherit x`.
    special: what a refactoring deals with, by kind and offset (see spec/Denote.tla)."""
    def __init__(self, src, loop=None, special=None): self.src, self.loop, self.special = src, loop, special or {}
    def skel(self, n, cut):
        """text of n without some parts, comments kept, blanks dropped"""
        o, p = b"", n[1][0]
        for c in sorted(cut, key=lambda c: c[1][0]): o, p = o + self.src[p:c[1][0]] + b"\0", c[1][1]
        return (o + self.src[p:n[1][1]]).decode("utf-8", "replace")
    def name(self, a):
        if a is None: return NONE
        if a[2] is not None: return node("str", unhx(a[2]))
        es = exprs(a)
        return node("x", self.skel(a, es), c=[self.expr(e) for e in es])
    def path(self, p): return [self.name(a) for a in kids(p, "AttrName")]
    def binds(self, n):
        out = []
        for b in (kids(n, "Binds") or [[None, None, None, []]])[0][3]:
            if b is None: continue
            if b[0] == "Binding":
                ps = kids(b, "AttrPath")
                p = self.path(ps[0]) if ps else []
                es = [c for c in b[3] if c and is_expr(c)]
                v = self.expr(es[0]) if es else NONE
                if self.loop == b[1][0] and v["k"] == "var": v = node("inh", v["n"])
                out.append({"p": p or [NONE], "v": v})
            else:
                src = [c for c in b[3] if c and is_expr(c)]
                for a in kids(b, "AttrName"):
                    nm = self.name(a)
                    out.append({"p": [nm], "v": node("from", nm["n"], c=[self.expr(src[0])]) if src else node("inh", nm["n"])})
        return out
    def expr(self, n):
        k = n[0]
        how = self.special.get((k, n[1][0]), [None])
        if how[0] == "letw":
            at, src, body = (kids(n, "ExprAttrs") or [None])[0], None, None
            ins = [b for B in kids(at, "Binds") for b in B[3] if b] if at else []
            if len(ins) == 1 and ins[0][0] == "Inherit":
                src = [c for c in ins[0][3] if c and is_expr(c)]
                body = [c for c in n[3] if c and is_expr(c) and c is not at]
            if not src or not body: return node("x", "no let inherit")
            return node("letw", c=[self.expr(src[0]), self.expr(body[0])], s=[self.name(a)["n"] for a in kids(ins[0], "AttrName")])
        if how[0] == "inl":
            # import ./file { inherit ...; }
            _, file, formals, body = how
            es = [c for c in n[3] if c and is_expr(c)]
            bs = self.binds(es[2]) if len(es) == 3 and es[2][0] == "ExprAttrs" else []
            if not (len(es) == (3 if formals else 2) and es[0][0] == "ExprVar" and self.src[es[1][1][0]:es[1][1][1]].decode() == "./" + file
                    and (not formals or not es[2][2] and [b["v"]["k"] + b["v"]["n"] for b in bs] == ["inh" + f for f in formals])):
                return node("x", "no import")
            return node("inl", c=[self.expr(es[0])] + [node("var", f) for f in formals] + [body], s=formals)
        if k == "ExprParen":
            es = [c for c in n[3] if c and is_expr(c)]
            return self.expr(es[0]) if es else NONE
        if k == "ExprVar": return node("var", unhx(n[2]))
        if k == "ExprAttrs": return node("set", r=bool(n[2]), b=self.binds(n))
        if k == "ExprLet":
            at = kids(n, "ExprAttrs")
            first = [c for c in at if c[1][1] <= next((m[1][0] for m in kids(n, "Misc") if self.src[m[1][0]:m[1][1]] == b"in"), 1 << 60)][:1]
            body = [c for c in n[3] if c and is_expr(c) and not (first and c is first[0])]
            return node("let", c=[self.expr(first[0]) if first else node("set", r=True), self.expr(body[-1]) if body else NONE])
        if k == "ExprLegacyLet":
            es = kids(n, "ExprAttrs") or [n]
            return node("sel", c=[node("set", r=True, b=self.binds(es[0])), node("str", "body")])
        if k == "ExprSelect":
            has_path, has_def = n[2]
            es = [c for c in n[3] if c and is_expr(c)]
            ps = kids(n, "AttrPath")
            p = self.path(ps[0]) if ps else []
            if has_def: return node("x", "or", c=[self.expr(es[0]), self.expr(es[1])] + p)
            return node("sel", c=[self.expr(es[0])] + p) if p else self.expr(es[0])
        if k == "ExprLambda":
            arg = kids(n, "LambdaArg")[0]
            fs = [f for F in kids(arg, "Formals") for f in kids(F, "Formal") if not f[2]]
            names = [unhx(c[2]) for c in kids(arg, "Identifier")]
            fn = [unhx(c[2]) for f in fs for c in kids(f, "Identifier")]
            defs = [[c for c in f[3] if c and is_expr(c)] for f in fs]
            ell = any(f[2] for F in kids(arg, "Formals") for f in kids(F, "Formal"))
            body = [c for c in n[3] if c and is_expr(c)]
            if how[0] in ("fnb", "fna"):
                v = how[1]
                if (v in names + fn) != (how[0] == "fna"): return node("x", "parameter")
                if v in fn:
                    i = fn.index(v)
                    if defs[i]: return node("x", "default")
                    fn, defs = fn[:i] + fn[i + 1:], defs[:i] + defs[i + 1:]
            # the order of the formals does not matter
            order = sorted(range(len(fn)), key=lambda i: fn[i])
            text = ("@".join(names) + "{" + ",".join(fn[i] + ("?" if defs[i] else "") for i in order) + (",..." if ell else "") + "}") if kids(arg, "Formals") else ":".join(names)
            return node(how[0] or "fn", text, s=names + fn + list(how[1:2]), c=[self.expr(body[0]) if body else NONE] + [self.expr(defs[i][0]) for i in order if defs[i]])
        if k == "ExprWith":
            semi = [m[1][0] for m in kids(n, "Misc") if self.src[m[1][0]:m[1][1]] == b";"]
            es = [c for c in n[3] if c and is_expr(c)]
            h = [c for c in es if not semi or c[1][0] < semi[0]]
            b = [c for c in es if semi and c[1][0] > semi[0]]
            return node(how[0] or "with", c=[self.expr(h[0]) if h else NONE, self.expr(b[0]) if b else NONE])
        es = exprs(n)
        t = self.skel(n, es)
        if k not in ("ExprString",): t = "".join(t.split())
        if k == "ExprOpHasAttr":
            # a ? b.c
            base = [c for c in n[3] if c and is_expr(c)][0]
            ps = kids(n, "AttrPath")
            return node("x", "?", c=[self.expr(base)] + (self.path(ps[0]) if ps else []))
        return node("x", k + t, c=[self.expr(e) for e in es])

def errors(rep, undefined=True):
    return [e["n"] for e in rep.get("d", []) + rep.get("vd", []) if e["sev"] <= 1 and (undefined or e["n"] != "sema-undefined-variable")]
def all_nodes(n, up=()):
    """(node, ancestors) of the whole tree"""
    yield n, up
    for c in n[3]:
        if c: yield from all_nodes(c, up + (n,))
