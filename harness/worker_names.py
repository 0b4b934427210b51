"""What the fake worker answers in mode m_k<letters> (C20), one field a letter; see spec/CompleteList.tla."""
QUOTED = [" b", '"', "${x}", "\\", "\n", "}", "$", ".c", "\u00e9", "$$", " ''", "${", " '", "\\n", "\U0001d11e", "a-b\t"]
VALUES = ["1", "{ a = \"$}\\\\\"; }", "\"${x}\"", "''\n  a ${y}\n  \\ }\n''", "[ ]", "\\", "$1", "}", "\"\\${x}\"", "$", "\u00e9 \U0001d11e", "${1:a}", "a: b"]
def name(k, i, prefix):
    if k == "x": return "y%d" % i
    if k == "o": return prefix + "00"
    if k == "r": return ["or", "in", "if", "rec", "inherit", "then", "let", "true", "_", "a'", "a-b", "0", "with", "'", "else", "assert", "-", "a b"][i % 18]
    if k == "z": return ""
    if k in "qAEB": return prefix + ("%d" % i if i >= len(QUOTED) else "") + QUOTED[i % len(QUOTED)]
    return prefix + "n%d" % i
def values(k, i):
    """(example, default)"""
    v, w = VALUES[i % len(VALUES)], VALUES[(i + 1) % len(VALUES)]
    return {"e": (v, None), "E": (v, None), "d": (None, v), "b": (v, w), "B": (v, w), "s": (v, v), "m": (v, None)}.get(k, (None, None))
def option(k, i):
    if k in "aArz": return None
    e, d = values(k, i)
    o = {"Description": "d", "Declarations": [], "Definitions": []}
    if e is not None: o["Example"] = e
    if d is not None: o["Default"] = d
    if k != "m": o["Type"] = {"Name": "int", "Description": "integer"}
    return o

def echo(scope, prefix):
    """Names that tell what was asked (C23); identifiers, because others are no variables."""
    n = (prefix or "n") + "--" + "--".join(scope).replace(" ", "-")
    return [n, n + "--" + prefix] if prefix else [n]
