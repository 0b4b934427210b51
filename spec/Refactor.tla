------------------------------ MODULE Refactor ------------------------------
(* Refactorings of attribute sets (C14) as transitions on programs: flattening
   a nested set, packing dotted paths, converting from and to inherit.  Each,
   under its side conditions, keeps what the program denotes (Same) and binds
   nothing twice (NoDup).  Behaviours build a set binding by binding, then
   refactor it; their last program is emitted as tokens.                      *)
EXTENDS Tokens, Json
CONSTANTS MaxBinds, MaxOps, Small      \* Small: few binding forms (exhaustive run)

Var(n) == Node("var", n, FALSE, <<>>, <<>>)
Nm(n) == Node("str", n, FALSE, <<>>, <<>>)
Qd(n) == [Nm(n) EXCEPT !.s = <<"q">>]                \* written with quotes
Lit(n) == Node("x", n, FALSE, <<>>, <<>>)
Dyn(e) == Node("x", "dyn", FALSE, <<e>>, <<>>)
Sl(e, p) == Node("sel", "", FALSE, <<e>> \o p, <<>>)
Or(e, p, d) == Node("x", "or", FALSE, <<e, d>> \o p, <<>>)
App(f, a) == Node("x", "app", FALSE, <<f, a>>, <<>>)
Set(r, bs) == Node("set", "", r, <<>>, bs)
B(p, v) == [p |-> p, v |-> v]
Inh(n) == B(<<n>>, Node("inh", n.n, FALSE, <<>>, <<>>))
From(n, e) == B(<<n>>, Node("from", n.n, FALSE, <<e>>, <<>>))

a == Nm("a")  b == Nm("b")  c == Nm("c")  x == Var("x")
Values == IF Small THEN {Lit("1"), Var("a"), Sl(x, <<a>>)}
          ELSE {Lit("1"), Lit("[ ]"), Var("a"), Var("b"), Sl(x, <<a>>), Sl(x, <<Qd("a")>>), Sl(x, <<Nm("y"), b>>), Sl(App(Var("f"), x), <<c>>), Sl(Sl(x, <<b>>), <<a>>), Sl(x, <<Dyn(x), b>>), Sl(x, <<Nm("in")>>), Or(x, <<a>>, Var("b")),
                Sl(Set(FALSE, <<B(<<a>>, Lit("1"))>>), <<a>>), Node("with", "", FALSE, <<x, Var("a")>>, <<>>), Node("fn", "a", FALSE, <<Var("a")>>, <<>>)}
Sets == IF Small THEN {Set(FALSE, <<B(<<b>>, Var("a"))>>), Set(TRUE, <<B(<<b>>, Var("c"))>>), Set(FALSE, <<Inh(c)>>), Set(FALSE, <<B(<<b, c>>, Lit("1")), B(<<c>>, Var("b"))>>)}
        ELSE {Set(FALSE, <<>>), Set(TRUE, <<>>), Set(FALSE, <<B(<<b>>, Lit("1"))>>), Set(FALSE, <<B(<<b, c>>, Var("a"))>>), Set(FALSE, <<B(<<Qd("b")>>, Var("b")), B(<<c>>, Lit("[ ]"))>>), Set(TRUE, <<B(<<b>>, Var("c")), B(<<c>>, Lit("1"))>>),
              Set(FALSE, <<Inh(b)>>), Set(FALSE, <<From(c, x)>>), Set(FALSE, <<B(<<Dyn(x)>>, Lit("1"))>>), Set(FALSE, <<B(<<c, Dyn(x)>>, Lit("1"))>>), Set(FALSE, <<B(<<b>>, Set(FALSE, <<B(<<c>>, Var("a"))>>)), B(<<Nm("b c")>>, x)>>),
              Set(FALSE, <<B(<<b>>, Set(TRUE, <<B(<<a>>, Var("a"))>>))>>), Set(TRUE, <<B(<<Qd("d")>>, Var("d")), B(<<Nm("in"), b>>, Var("b"))>>)}
Paths == IF Small THEN {<<a>>, <<a, b>>, <<a, c>>, <<c>>}
         ELSE {<<a>>, <<b>>, <<c>>, <<Qd("a")>>, <<a, b>>, <<a, c>>, <<Qd("a"), b>>, <<a, Nm("b c")>>, <<a, b, c>>, <<a, b, Nm("d")>>, <<b, a>>, <<Nm("in")>>, <<Nm("in"), b>>, <<a, Dyn(x)>>, <<Dyn(x), a>>, <<Dyn(x)>>}
Forms == {B(p, v) : p \in Paths, v \in Values \cup Sets} \cup {Inh(n) : n \in {a, c, Qd("b")}}
         \cup {From(n, e) : n \in IF Small THEN {a, c} ELSE {a, c, Nm("in"), Qd("b")}, e \in {x, Sl(x, <<b>>), App(Var("f"), Var("a")), Set(FALSE, <<B(<<c>>, Var("a"))>>)}}

(* nothing is bound twice; a set may add to what is bound already, but only attributes that are new *)
RECURSIVE NoDup(_)
NoDup(bs) ==
  LET Of(n) == SelectSeq(bs, LAMBDA q : IsStr(q.p[1]) /\ q.p[1].n = n)
  IN \A n \in First(bs) : LET o == Of(n) IN
       IF Len(o) = 1 THEN (IF Len(o[1].p) = 1 THEN o[1].v.k = "set" => NoDup(o[1].v.b) ELSE TRUE)
       ELSE /\ \A i \in DOMAIN o : Len(o[i].p) > 1 \/ o[i].v.k = "set"
            /\ \A i \in DOMAIN o \ {1} : Len(o[i].p) = 1 => First(o[i].v.b) \cap First(Nest(SubSeq(o, 1, i - 1))) = {}
            /\ NoDup(Nest(o))

(* The refactorings *)
Static(p) == \A i \in DOMAIN p : IsStr(p[i])
Repl(bs, i, new) == SubSeq(bs, 1, i - 1) \o new \o SubSeq(bs, i + 1, Len(bs))
Plain(v) == v.k \notin {"inh", "from"}
CanFlatten(q) == q.v.k = "set" /\ ~q.v.r /\ q.v.b # <<>> /\ Static(q.p) /\ \A i \in DOMAIN q.v.b : Plain(q.v.b[i].v) /\ Static(q.v.b[i].p)
Flatten(q) == [i \in DOMAIN q.v.b |-> B(q.p \o q.v.b[i].p, q.v.b[i].v)]
CanPack(q) == Len(q.p) > 1 /\ Static(q.p)
(* what an earlier binding gives attributes can no longer be given some by a set *)
Bound(bs, i) == LET o == SelectSeq(SubSeq(bs, 1, i - 1), LAMBDA q : IsStr(q.p[1]) /\ q.p[1].n = bs[i].p[1].n) IN bs[i].p[2].n \in First(Nest(o))
Pack(qs) == <<B(<<qs[1].p[1]>>, Set(FALSE, [i \in DOMAIN qs |-> B(Tail(qs[i].p), qs[i].v)]))>>
Is(q, n) == IsStr(q.p[1]) /\ q.p[1].n = n
RECURSIVE Deep(_)
Deep(q) == IF Len(q.p) = 1 THEN q ELSE B(<<q.p[1]>>, Set(FALSE, <<Deep(B(Tail(q.p), q.v))>>))
CanInherit(q, r) == Len(q.p) = 1 /\ IsStr(q.p[1]) /\
   \/ q.v.k = "var" /\ q.v.n = q.p[1].n /\ ~r
   \/ q.v.k = "sel" /\ Static(Tail(q.v.c)) /\ q.v.c[Len(q.v.c)].n = q.p[1].n
ToInherit(q) == IF q.v.k = "var" THEN Inh(q.p[1])
                ELSE From(q.p[1], IF Len(q.v.c) = 2 THEN q.v.c[1] ELSE Sl(q.v.c[1], SubSeq(q.v.c, 2, Len(q.v.c) - 1)))
CanBind(q, r) == q.v.k = "from" \/ (q.v.k = "inh" /\ ~r)
ToBinding(q) == IF q.v.k = "inh" THEN B(q.p, Var(q.v.n)) ELSE B(q.p, Sl(q.v.c[1], <<Nm(q.v.n)>>))
(* a set that others merge with, since one path begins with the other, may be part of a recursive one *)
Shared(bs, i) == \E k \in DOMAIN bs \ {i} : \A j \in DOMAIN bs[i].p \cap DOMAIN bs[k].p : IsStr(bs[i].p[j]) /\ IsStr(bs[k].p[j]) /\ bs[i].p[j].n = bs[k].p[j].n
RECURSIVE Ops(_, _)
Ops(bs, r) ==
  LET I == DOMAIN bs IN
  {Repl(bs, i, Flatten(bs[i])) : i \in {i \in I : CanFlatten(bs[i])}}
  \cup {Repl(bs, i, Pack(<<bs[i]>>)) : i \in {i \in I : CanPack(bs[i]) /\ (Bound(bs, i) = FALSE)}}
  \cup {Repl(bs, i, <<Deep(bs[i])>>) : i \in {i \in I : CanPack(bs[i]) /\ (Bound(bs, i) = FALSE)}}
  \cup UNION {{LET o == SelectSeq(bs, LAMBDA q : Is(q, n)) IN SelectSeq(SubSeq(bs, 1, i - 1), LAMBDA q : ~Is(q, n)) \o Pack(o) \o SelectSeq(SubSeq(bs, i + 1, Len(bs)), LAMBDA q : ~Is(q, n))
                : i \in {i \in I : Is(bs[i], n)}} : n \in {n \in First(bs) : \A k \in I : Is(bs[k], n) => Len(bs[k].p) > 1}}
  \cup {[bs EXCEPT ![i] = ToInherit(bs[i])] : i \in {i \in I : CanInherit(bs[i], r)}}
  \cup {[bs EXCEPT ![i] = ToBinding(bs[i])] : i \in {i \in I : CanBind(bs[i], r)}}
  \cup UNION {{[bs EXCEPT ![i].v.b = new] : new \in Ops(bs[i].v.b, bs[i].v.r \/ Shared(bs, i))} : i \in {i \in I : bs[i].v.k = "set"}}

(* Behaviours *)
Wraps == {"set", "rec", "let", "fn", "with", "inlet"}
Wrap(w, bs) ==
  CASE w = "set" -> Set(FALSE, bs)
    [] w = "rec" -> Set(TRUE, bs)
    [] w = "let" -> Node("let", "", FALSE, <<Set(TRUE, bs), App(Var("f"), Var("a"))>>, <<>>)
    [] w = "fn" -> [Node("fn", "a", FALSE, <<Set(FALSE, bs)>>, <<>>) EXCEPT !.s = <<"a">>]
    [] w = "with" -> Node("with", "", FALSE, <<x, Set(FALSE, bs)>>, <<>>)
    [] OTHER -> Node("let", "", FALSE, <<Set(TRUE, <<B(<<a>>, Lit("1")), B(<<b>>, Lit("2"))>>), Set(FALSE, bs)>>, <<>>)
Rec(w) == w \in {"rec", "let"}
VARIABLES w, bs, first, ops, phase
vars == <<w, bs, first, ops, phase>>
Init == w \in Wraps /\ bs = <<>> /\ first = <<>> /\ ops = 0 /\ phase = "build"
Add == phase = "build" /\ Len(bs) < MaxBinds /\ \E f \in Forms : NoDup(Append(bs, f)) = TRUE /\ bs' = Append(bs, f) /\ UNCHANGED <<w, first, ops, phase>>
Seal == phase = "build" /\ bs # <<>> /\ (Small \/ Len(bs) = MaxBinds) /\ phase' = "ops" /\ first' = bs /\ UNCHANGED <<w, bs, ops>>
Step == phase = "ops" /\ ops < MaxOps /\ \E n \in Ops(bs, Rec(w)) : bs' = n /\ ops' = ops + 1 /\ UNCHANGED <<w, first, phase>>
End == phase = "ops" /\ phase' = "done" /\ UNCHANGED <<w, bs, first, ops>>
Next == Add \/ Seal \/ Step \/ End

Same == phase = "ops" => Norm(Wrap(w, bs), <<>>) = Norm(Wrap(w, first), <<>>)
Unique == phase = "ops" => NoDup(bs)
Emit == phase # "done" \/ PrintT("@@" \o ToJson([t |-> TE(Wrap(w, bs))]))
=============================================================================
