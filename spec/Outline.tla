------------------------------ MODULE Outline ------------------------------
(* What the outline, folding ranges, semantic tokens and document links of a
   document are (C21), as functions of its syntax tree, and when a reply is
   structurally sound whatever the document is.  Validates recorded replies.

   Positions are line * W + column.  A node is
     [k, n, b, e, lit, c, p, s, bs, t]: kind, text, range, literal?, operands,
     attribute path, parameters, bindings, file that a path denotes.
   Names of a path are [k, st, n, b, e, c]: id, str or dyn; static?; text;
   range; expressions within.  The operands of a set are what nothing is
   inherited from.  Bindings are [p, v]; v.k is inh or from for
   inherited attributes.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
W == 100000
Line(p) == p \div W
Multi(b, e) == Line(b) # Line(e)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
SetOf(s) == {s[i] : i \in DOMAIN s}

(* What a name refers to *)
Globals == {"abort", "baseNameOf", "break", "builtins", "derivation", "derivationStrict", "dirOf", "fetchGit", "fetchMercurial", "fetchTarball", "fetchTree",
            "fromTOML", "import", "isNull", "map", "placeholder", "removeAttrs", "scopedImport", "throw", "toString", "__add", "__sub", "__length", "__head", "__curPos"}
RECURSIVE Refers(_, _, _)
Refers(n, env, with) ==
  IF n \in {"true", "false"} THEN "bool" ELSE IF n = "null" THEN "null"
  ELSE IF env = <<>> THEN IF n \in Globals THEN "builtin" ELSE IF with THEN "with" ELSE "undef"
  ELSE IF n \in env[1] THEN "defined"
  ELSE Refers(n, Tail(env), with \/ env[1] = {" with"})
With(env) == <<{" with"}>> \o env

First(bs) == {bs[i].p[1].n : i \in {i \in DOMAIN bs : bs[i].p[1].st}}
Of(bs, n) == SelectSeq(bs, LAMBDA b : b.p[1].st /\ b.p[1].n = n)
Dynamic(bs) == SelectSeq(bs, LAMBDA b : ~b.p[1].st)
RECURSIVE Nest(_)
Nest(o) == IF o = <<>> THEN <<>>
           ELSE LET b == o[1] IN (IF Len(b.p) > 1 THEN <<[p |-> Tail(b.p), v |-> b.v]>> ELSE b.v.bs) \o Nest(Tail(o))
Single(o) == Len(o) = 1 /\ Len(o[1].p) = 1
(* the scopes: of a set's values; of the operands of let, functions and with *)
Inner(x, env) == IF x.r THEN <<First(x.bs)>> \o env ELSE env
NestRec(o) == Len(o[1].p) = 1 /\ o[1].v.r
NestEnv(o, env) == IF NestRec(o) THEN <<First(Nest(o))>> \o env ELSE env
Names(x) == {x.s[i].n : i \in DOMAIN x.s}
Scope(x, i, env) == CASE x.k = "let" /\ i = 2 -> <<First(x.c[1].bs)>> \o env
                      [] x.k = "fn" -> <<Names(x)>> \o env
                      [] x.k = "with" /\ i = 2 -> With(env)
                      [] OTHER -> env

(* Semantic tokens: [b, e, t, m] *)
Tok(b, e, t, m) == IF Multi(b, e) THEN {} ELSE {[b |-> b, e |-> e, t |-> t, m |-> m]}
VarTok(r) == CASE r = "bool" -> <<9, 1>> [] r = "null" -> <<8, 0>> [] r = "builtin" -> <<4, 1>> [] r = "defined" -> <<5, 0>> [] r = "with" -> <<6, 4>> [] OTHER -> <<5, 2>>
RECURSIVE Toks(_, _), SetToks(_, _, _)
ToksOf(es, env) == UNION {Toks(es[i], env) : i \in DOMAIN es}
NameToks(a, env) == IF a.k = "dyn" /\ ~a.st THEN ToksOf(a.c, env) ELSE {}
(* inherited names, and what they are inherited from, are none *)
SetToks(bs, in, env) ==
  UNION {LET o == Of(bs, n)  k == o[1].p[1] IN
         IF Single(o) THEN IF o[1].v.k \in {"inh", "from"} THEN {} ELSE Tok(k.b, k.e, 10, 0) \cup Toks(o[1].v, in)
         ELSE Tok(k.b, k.e, 10, 0) \cup SetToks(Nest(o), NestEnv(o, in), in) : n \in First(bs)}
  \cup UNION {LET d == Dynamic(bs)[i] IN NameToks(d.p[1], in) \cup (IF Len(d.p) = 1 THEN Toks(d.v, in) ELSE SetToks(<<[p |-> Tail(d.p), v |-> d.v]>>, in, in)) : i \in DOMAIN Dynamic(bs)}
Toks(x, env) ==
  LET Kids == UNION {Toks(x.c[i], Scope(x, i, env)) : i \in DOMAIN x.c} IN
  CASE x.k = "var" -> LET t == VarTok(Refers(x.n, env, FALSE)) IN Tok(x.b, x.e, t[1], t[2])
    [] x.k = "str" -> IF x.lit THEN Tok(x.b, x.e, 1, 0) ELSE {}       \* nor is what strings interpolate
    [] x.k = "sel" -> Kids \cup UNION {LET a == x.p[i] IN IF a.k = "id" THEN Tok(a.b, a.e, 3, 0) ELSE NameToks(a, env) : i \in DOMAIN x.p}
    [] x.k = "has" -> Kids \cup UNION {LET a == x.p[i] IN IF a.k = "str" /\ a.st THEN Tok(a.b, a.e, 1, 0) ELSE IF a.k = "dyn" THEN ToksOf(a.c, env) ELSE {} : i \in DOMAIN x.p}
    [] x.k = "set" -> SetToks(x.bs, Inner(x, env), env)
    [] x.k = "fn" -> Kids \cup UNION {Tok(x.s[i].b, x.s[i].e, x.s[i].t, 0) : i \in DOMAIN x.s}
    [] OTHER -> Kids

(* Outline: [n, k, sb, se, b, e, hb, he, kids]: the range is b .. e at least and hb .. he at most *)
Sym(n, k, sb, se, b, e, kids) == [n |-> n, k |-> k, sb |-> sb, se |-> se, b |-> b, e |-> e, hb |-> b, he |-> e, kids |-> kids]
VarKind(r) == CASE r = "bool" -> 17 [] r = "null" -> 21 [] r = "builtin" -> 24 [] r = "defined" -> 14 [] OTHER -> 13
RECURSIVE Syms(_, _), SetSyms(_, _, _), Lo(_, _), Hi(_, _)
Lo(b, S) == IF S = {} THEN b ELSE LET s == CHOOSE s \in S : TRUE IN Lo(Min2(b, s.b), S \ {s})
Hi(e, S) == IF S = {} THEN e ELSE LET s == CHOOSE s \in S : TRUE IN Hi(Max2(e, s.e), S \ {s})
SymsOf(es, env) == UNION {Syms(es[i], env) : i \in DOMAIN es}
NameSym(a) == Sym(IF a.st THEN a.n ELSE "(dynamic attribute name)", 7, a.b, a.e, a.b, a.e, {})
AttrSym(n, key, vs, kids) ==
  LET b == Lo(key.b, kids)  e == Hi(key.e, kids)
  IN [Sym(n, 8, key.b, key.e, b, e, kids) EXCEPT !.hb = Lo(b, {[b |-> v.b] : v \in vs}), !.he = Hi(e, {[e |-> v.e] : v \in vs})]
SetSyms(bs, in, env) ==
  {LET o == Of(bs, n)  k == o[1].p[1]  v == o[1].v IN
   AttrSym(n, k, {o[i].v : i \in DOMAIN o},
     IF Single(o) THEN CASE v.k = "inh" -> Syms([v EXCEPT !.k = "var"], env)
                         [] v.k = "from" -> Syms(v.c[1], in) \cup {NameSym(k)}
                         [] OTHER -> Syms(v, in)
     ELSE SetSyms(Nest(o), NestEnv(o, in), in)) : n \in First(bs)}
  \cup {LET d == Dynamic(bs)[i] IN
        AttrSym("${dynamic attribute}", d.p[1], {d.v}, IF Len(d.p) = 1 THEN Syms(d.v, in) ELSE SetSyms(<<[p |-> Tail(d.p), v |-> d.v]>>, in, in)) : i \in DOMAIN Dynamic(bs)}
Syms(x, env) ==
  LET Kids == UNION {Syms(x.c[i], Scope(x, i, env)) : i \in DOMAIN x.c} IN
  CASE x.k = "var" -> {Sym(x.n, VarKind(Refers(x.n, env, FALSE)), x.b, x.e, x.b, x.e, {})}
    [] x.k = "str" -> {Sym(IF x.lit THEN x.n ELSE "(dynamic string)", 15, x.b, x.e, x.b, x.e, {})}
    [] x.k = "num" -> {Sym(x.n, 16, x.b, x.e, x.b, x.e, {})}
    [] x.k \in {"sel", "has"} -> Kids \cup {NameSym(x.p[i]) : i \in DOMAIN x.p}
    [] x.k = "set" -> SetSyms(x.bs, Inner(x, env), env)
    [] x.k = "list" -> {Sym("{anonymous}", 18, x.b, x.e, x.b, x.e, Kids)}
    [] x.k = "fn" -> {Sym(x.n, 12, x.p[1].b, x.p[1].e, x.b, x.e, Syms(x.c[1], Scope(x, 1, env)))}       \* parameters are none
    [] OTHER -> Kids
RECURSIVE Match(_, _)
All(os, es) == Len(os) = Cardinality(es) /\ \A e \in es : \E i \in DOMAIN os : Match(os[i], e)
Match(o, e) == /\ o.n = e.n /\ o.k = e.k /\ o.sb = e.sb /\ o.se = e.se
               /\ e.hb <= o.b /\ o.b <= e.b /\ e.e <= o.e /\ o.e <= e.he
               /\ All(o.kids, e.kids)

(* Folding ranges: constructs of several lines, outside of parameters and strings *)
RECURSIVE Folds(_)
Fold(b, e) == IF Multi(b, e) THEN {<<b, e>>} ELSE {}
NameFolds(p) == UNION {IF p[i].k = "str" THEN Fold(p[i].b, p[i].e) ELSE UNION {Folds(p[i].c[j]) : j \in DOMAIN p[i].c} : i \in DOMAIN p}
Folds(x) ==
  LET Kids == UNION {Folds(x.c[i]) : i \in DOMAIN x.c} IN
  CASE x.k \in {"list", "let", "with", "if"} -> Fold(x.b, x.e) \cup Kids
    [] x.k = "fn" -> Fold(x.b, x.e) \cup Folds(x.c[1])
    [] x.k = "str" -> Fold(x.b, x.e)
    [] x.k = "set" -> Fold(x.b, x.e) \cup Kids \cup UNION {NameFolds(x.bs[i].p) \cup Folds(x.bs[i].v) : i \in DOMAIN x.bs}
    [] x.k \in {"sel", "has"} -> Kids \cup NameFolds(x.p)
    [] x.k = "inh" -> {}
    [] OTHER -> Kids

(* Links: literal paths to files *)
RECURSIVE Links(_)
NameLinks(p) == UNION {UNION {Links(p[i].c[j]) : j \in DOMAIN p[i].c} : i \in DOMAIN p}
Links(x) == (IF x.k = "path" /\ x.lit /\ x.t # "" THEN {[b |-> x.b, e |-> x.e, t |-> x.t]} ELSE {})
            \cup UNION {Links(x.c[i]) : i \in DOMAIN x.c} \cup (IF x.k = "fn" THEN {} ELSE NameLinks(x.p)) \cup UNION {NameLinks(x.bs[i].p) \cup Links(x.bs[i].v) : i \in DOMAIN x.bs}

(* Soundness of a reply about a text whose lines have the lengths ls *)
InText(p, ls) == Line(p) + 1 \in DOMAIN ls /\ p % W <= ls[Line(p) + 1]
Ordered(ts) == \A i \in DOMAIN ts : i = 1 \/ ts[i - 1].e <= ts[i].b
SoundToks(ts, ls) == Ordered(ts) /\ \A i \in DOMAIN ts : ts[i].b < ts[i].e /\ InText(ts[i].b, ls) /\ InText(ts[i].e, ls) /\ ~Multi(ts[i].b, ts[i].e)
RECURSIVE SoundSyms(_, _, _, _)
SoundSyms(ss, b, e, ls) == \A i \in DOMAIN ss : LET s == ss[i] IN b <= s.b /\ s.b <= s.sb /\ s.sb <= s.se /\ s.se <= s.e /\ s.e <= e /\ InText(s.sb, ls) /\ InText(s.se, ls) /\ InText(s.b, ls) /\ InText(s.e, ls) /\ SoundSyms(s.kids, s.b, s.e, ls)
Apart(f, g) == f[2] <= g[1] \/ g[2] <= f[1] \/ (f[1] <= g[1] /\ g[2] <= f[2]) \/ (g[1] <= f[1] /\ f[2] <= g[2])
SoundFolds(fs, ls) == /\ \A i \in DOMAIN fs : Line(fs[i][1]) < Line(fs[i][2]) /\ InText(fs[i][1], ls) /\ InText(fs[i][2], ls)
                      /\ \A i, j \in DOMAIN fs : i < j => (fs[i] # fs[j] /\ Apart(fs[i], fs[j]))
SoundLinks(ks, ls) == \A i \in DOMAIN ks : ks[i].b < ks[i].e /\ InText(ks[i].b, ls) /\ InText(ks[i].e, ls)

(* A record: the replies toks, syms, folds, links; lens; valid: the tree is complete and has no errors *)
Recs == ndJsonDeserialize(IOEnv.RECORDS)
Problems(r) ==
  {p \in {"toks", "syms", "folds", "links", "toks!", "syms!", "folds!", "links!"} :
     ~ CASE p = "toks" -> SoundToks(r.toks, r.lens)
         [] p = "syms" -> SoundSyms(r.syms, 0, W * Len(r.lens), r.lens)
         [] p = "folds" -> SoundFolds(r.folds, r.lens)
         [] p = "links" -> SoundLinks(r.links, r.lens)
         [] ~r.valid -> TRUE
         [] p = "toks!" -> SetOf(r.toks) = Toks(r.tree, <<>>)
         [] p = "syms!" -> All(r.syms, Syms(r.tree, <<>>))
         [] p = "folds!" -> SetOf(r.folds) = Folds(r.tree)
         [] p = "links!" -> SetOf(r.links) = Links(r.tree)}
VARIABLE l
Init == l = 0
Next == l = 0 /\ l' \in 1 .. Len(Recs)
Expected(r, p) == CASE p = "toks!" -> ToString(Toks(r.tree, <<>>)) [] p = "syms!" -> ToString(Syms(r.tree, <<>>)) [] p = "folds!" -> ToString(Folds(r.tree)) [] p = "links!" -> ToString(Links(r.tree)) [] OTHER -> ""
Check == l = 0 \/ (LET ps == Problems(Recs[l]) IN IF ps = {} THEN TRUE ELSE \A p \in ps : PrintT("@@" \o ToJson([l |-> l, p |-> p, x |-> Expected(Recs[l], p)])))
Done == TLCGet("distinct") = Len(Recs) + 1
=============================================================================
