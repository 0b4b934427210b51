------------------------------- MODULE Denote -------------------------------
(* What a Nix expression denotes, up to evaluation (C14, C17): variables are
   replaced by what they refer to, attribute sets by their attributes.

   An expression is [k, n, r, c, b]: kind, text, recursive?, operands, bindings.
     var n             a variable
     str n             a static name in an attribute path
     sel c             c[1] selected by the path of the others
     set r b           an attribute set
     let c             c[1] a set, c[2] the body
     fn n s c          a function binding the names s, of body c[1], with defaults
     with c            c[1] the set, c[2] the body
     inh n, from n c   values of inherited attributes
     x n c             anything else
   and for what C17's refactorings do, before and after:
     mark c            a with to become a let: the set, the body
     letw s c          what it became, for the names s: the set, the body
     fnb, fna n s c    a function before and after its parameter Last(s) was added
     inl s c           an extracted expression: `import` applied to a file of the
                       function of s and body c[Len(c)]; c[1] is the variable
                       import, the others are the arguments
   A binding is [p, v]: a path and an expression.                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
NF(k, n, c, a) == [k |-> k, n |-> n, c |-> c, a |-> a]
Str(n) == NF("str", n, <<>>, {})
Node(k, n, r, c, b) == [k |-> k, n |-> n, r |-> r, c |-> c, b |-> b, s |-> <<>>]
IsStr(x) == x.k = "str"

(* (a.b).c is a.b.c *)
Sel(base, path) == IF base.k = "sel" THEN [base EXCEPT !.c = @ \o path] ELSE NF("sel", "", <<base>> \o path, {})

(* names that are bound where nothing else binds them *)
Globals == {"abort", "baseNameOf", "break", "builtins", "derivation", "derivationStrict", "dirOf", "false", "fetchGit", "fetchMercurial", "fetchTarball",
            "fetchTree", "fromTOML", "import", "isNull", "map", "null", "placeholder", "removeAttrs", "scopedImport", "throw", "toString", "true",
            "__add", "__sub", "__length", "__head", "__tail", "__currentSystem", "__filter", "__attrNames", "__curPos"}    \* and others with the prefix

(* Environments: innermost first.  An entry is
     scope  names
     with   a set of unknown names: its meaning; mark: the one to be converted
     param  the parameter to be added, last: before, it is one where nothing else binds it
     subst  names stand for vals
     trap   names that nothing may refer to
     file   another file begins: nothing outside is visible, lvl is the depth there *)
Entry == [t |-> "scope", names |-> {}, head |-> Str(""), vals |-> {}, lvl |-> 0]
RECURSIVE Level(_)
Level(env) == IF env = <<>> THEN 0
              ELSE IF Head(env).t = "file" THEN Head(env).lvl
              ELSE (IF Head(env).t = "scope" THEN 1 ELSE 0) + Level(Tail(env))
Push(env, names) == <<[Entry EXCEPT !.names = names]>> \o env
PushWith(env, t, h) == <<[Entry EXCEPT !.t = t, !.head = h]>> \o env
PushNames(env, t, names, vals) == <<[Entry EXCEPT !.t = t, !.names = names, !.vals = vals]>> \o env
RECURSIVE Look_(_, _, _)
Look_(n, env, ws) ==
  IF env = <<>> \/ (IF env = <<>> THEN FALSE ELSE Head(env).t = "file")
  THEN IF n \in Globals THEN NF("global", n, <<>>, {})
       ELSE IF ws = <<>> THEN NF("free", n, <<>>, {})
       ELSE IF ws[1].t = "mark" THEN Sel(ws[1].head, <<Str(n)>>)           \* only from the innermost one
       ELSE NF("with", n, [i \in DOMAIN ws |-> ws[i].head], {})
  ELSE LET e == Head(env)  more == Tail(env) IN
       CASE e.t \in {"with", "mark"} -> Look_(n, more, Append(ws, e))
         [] e.t = "param" -> LET r == Look_(n, more, ws) IN IF n \in e.names /\ r.k = "free" THEN NF("param", n, <<>>, {}) ELSE r
         [] n \in e.names -> (CASE e.t = "scope" -> NF("ref", n \o "@" \o ToString(Level(env)), <<>>, {})
                                [] e.t = "subst" -> (CHOOSE v \in e.vals : v[1] = n)[2]
                                [] e.t = "trap" -> NF("trap", n, <<>>, {})
                                [] e.t = "added" -> NF("param", n, <<>>, {}))
         [] OTHER -> Look_(n, more, ws)
Look(n, env) == Look_(n, env, <<>>)


First(bs) == {bs[i].p[1].n : i \in {i \in DOMAIN bs : IsStr(bs[i].p[1])}}
RECURSIVE Norm(_, _), NormSet(_, _, _), Nest(_)
(* the value of an attribute: in a recursive set, `inherit x` refers to the x outside *)
Value(v, in, env) == CASE v.k = "inh" -> Look(v.n, env)
                       [] v.k = "from" -> Sel(Norm(v.c[1], in), <<Str(v.n)>>)
                       [] OTHER -> Norm(v, in)
(* the bindings of what is bound several times, or by a longer path *)
Nest(o) == IF o = <<>> THEN <<>>
           ELSE LET b == Head(o) IN (IF Len(b.p) > 1 THEN <<[p |-> Tail(b.p), v |-> b.v]>> ELSE b.v.b) \o Nest(Tail(o))
NormSet(bs, r, env) ==
  LET in == IF r THEN Push(env, First(bs)) ELSE env
      Of(n) == SelectSeq(bs, LAMBDA b : b.p[1].k = "str" /\ b.p[1].n = n)
      Val(o) == IF Len(o) = 1 /\ Len(o[1].p) = 1 THEN Value(o[1].v, in, env)
                ELSE NormSet(Nest(o), Len(o[1].p) = 1 /\ o[1].v.r, in)     \* the first one says whether it is recursive
      dyn == SelectSeq(bs, LAMBDA b : b.p[1].k # "str")
  IN NF(IF r THEN "rec" ELSE "set", "",
        [i \in DOMAIN dyn |-> NF("dyn", "", <<Norm(dyn[i].p[1], in), IF Len(dyn[i].p) = 1 THEN Value(dyn[i].v, in, env) ELSE NormSet(<<[dyn[i] EXCEPT !.p = Tail(@)]>>, FALSE, in)>>, {})],
        {<<n, Val(Of(n))>> : n \in First(bs)})
Norm(x, env) ==
  LET Kids(e) == [i \in DOMAIN x.c |-> Norm(x.c[i], e)] IN
  CASE x.k = "var" -> Look(x.n, env)
    [] x.k = "str" -> Str(x.n)
    [] x.k = "sel" -> Sel(Norm(x.c[1], env), Tail(Kids(env)))
    [] x.k = "set" -> NormSet(x.b, x.r, env)
    [] x.k = "let" -> NF("let", "", <<NormSet(x.c[1].b, TRUE, env), Norm(x.c[2], Push(env, First(x.c[1].b)))>>, {})
    [] x.k = "fn" -> NF("fn", x.n, Kids(Push(env, {x.s[i] : i \in DOMAIN x.s})), {})
    [] x.k = "with" -> LET h == Norm(x.c[1], env) IN NF("with", "", <<h, Norm(x.c[2], PushWith(env, "with", h))>>, {})
    [] x.k = "mark" -> LET h == Norm(x.c[1], env) IN NF("subst", "", <<h, Norm(x.c[2], PushWith(env, "mark", h))>>, {})
    [] x.k = "letw" -> LET names == {x.s[i] : i \in DOMAIN x.s}
                           h == Norm(x.c[1], PushNames(env, "trap", names, {}))
                       IN NF("subst", "", <<h, Norm(x.c[2], PushNames(env, "subst", names, {<<n, Sel(h, <<Str(n)>>)>> : n \in names}))>>, {})
    [] x.k \in {"fnb", "fna"} -> LET l == Len(x.s)
                                 in == PushNames(env, IF x.k = "fna" THEN "added" ELSE "param", {x.s[l]}, {})
                             IN NF("fn", x.n, Kids(Push(in, {x.s[i] : i \in 1 .. l - 1})), {})
    [] x.k = "inl" -> LET l == Len(x.c)
                          vals == {<<x.s[i], Norm(x.c[i + 1], env)>> : i \in DOMAIN x.s}
                          file == <<[Entry EXCEPT !.t = "file", !.lvl = Level(env)]>>
                      IN IF Norm(x.c[1], env) # NF("global", "import", <<>>, {}) \/ Len(x.s) # l - 2 THEN NF("bad", "", <<>>, {})
                         ELSE Norm(x.c[l], PushNames(file, "subst", {x.s[i] : i \in DOMAIN x.s}, vals))
    [] OTHER -> NF("x", x.n, Kids(env), {})
=============================================================================
