"""The shape of a parsed tree as the S-expressions the specifications write."""
from common import unhx
KIND, RNG, EX, CH = 0, 1, 2, 3
def sx(n):
    if n is None: return "null"
    k, ex, ch = n[KIND], n[EX], n[CH]
    if k in ("ExprVar", "Identifier"): return unhx(ex)
    if k == "ExprInt": return str(ex)
    if k == "ExprFloat": return "float:%r" % ex
    if k == "ExprParen": return "(paren %s)" % sx(ch[0])
    if k == "ExprBinOp": return "(%s %s %s)" % (ex, sx(ch[1]), sx(ch[2]))
    if k == "ExprUnaryOp": return "(%s %s)" % ("NOT" if ex == "!" else "NEGATE", sx(ch[1]))
    if k == "ExprOpHasAttr": return "(? %s %s)" % (sx(ch[0]), sx(ch[1]))
    if k == "ExprCall": return "(call %s)" % " ".join(map(sx, ch))
    if k == "ExprList": return "(list%s)" % "".join(" " + sx(c) for c in ch)
    if k == "ExprSelect":
        if ex[1]: return "(selor %s %s %s)" % (sx(ch[0]), sx(ch[1]), sx(ch[2]))
        return "(sel %s %s)" % (sx(ch[0]), sx(ch[1]))
    if k == "AttrPath":
        return ".".join(sx(c) for c in ch if c and c[KIND] == "AttrName")
    if k == "AttrName": return sx(ch[0])
    if k == "ExprString":
        return "(str%s)" % "".join(" " + sx(c) for c in ch[0][CH])
    if k == "ExprPath":
        return "(path%s)" % "".join(" " + sx(c) for c in ch[0][CH])
    if k == "ExprSPath": return "<%s>" % unhx(ex)
    if k == "Interpolation": return "(itp %s)" % sx(ch[0])
    if k == "ExprAttrs":
        b = ch[0]
        body = "".join(" " + sx(c) for c in b[CH]) if b else ""
        return "(%s%s)" % ("rec" if ex else "attrs", body)
    if k == "Binding": return "(bind %s %s)" % (sx(ch[0]), sx(ch[2]))
    if k == "Inherit":
        e = ch[-1]
        names = ch[:-1]
        return "(inherit%s%s)" % ("(" + sx(e) + ")" if e else "", "".join(" " + sx(c) for c in names))
    if k == "ExprLet":
        b = ch[1][CH][0] if ch[1] else None
        body = "".join(" " + sx(c) for c in b[CH]) if b else ""
        return "(let%s in %s)" % (body, sx(ch[3]))
    if k == "ExprLegacyLet":
        b = ch[1][CH][0] if ch[1] else None
        return "(oldlet%s)" % ("".join(" " + sx(c) for c in b[CH]) if b else "")
    if k == "ExprIf": return "(if %s %s %s)" % tuple(map(sx, ch))
    if k == "ExprAssert": return "(assert %s %s)" % tuple(map(sx, ch))
    if k == "ExprWith": return "(with %s %s)" % (sx(ch[2]), sx(ch[3]))
    if k == "ExprLambda": return "(fn %s %s)" % (sx(ch[0]), sx(ch[1]))
    if k == "LambdaArg":
        return "@".join(sx(c) for c in ch if c)
    if k == "Formals": 
        if ch and ch[-1][CH] and not ch[-1][EX] and ch[-1][CH][0] is None: ch = ch[:-1]  # after a trailing comma
        return "{%s}" % ",".join(map(sx, ch))
    if k == "Formal":
        if ex: return "..."
        return sx(ch[0]) + ("?" + sx(ch[1]) if ch[1] else "")
    raise ValueError(k)
