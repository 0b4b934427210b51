------------------------------ MODULE Rescope ------------------------------
(* Scope-changing refactorings (C17) on programs: a with becomes a let, an
   undefined name a parameter, an expression another file.  A stack machine
   writes every program of at most Depth constructs; each refactoring whose
   side conditions hold keeps what the program denotes (Keeps).  Without one
   of the conditions, TLC shows a program where it does not.                 *)
EXTENDS Tokens, Json
CONSTANTS Depth, Omit           \* Omit: side conditions left out

Var(n) == Node("var", n, FALSE, <<>>, <<>>)
List(es) == Node("x", "list", FALSE, es, <<>>)
B(n, v) == [p |-> <<Node("str", n, FALSE, <<>>, <<>>)>>, v |-> v]
Inh(n) == B(n, Node("inh", n, FALSE, <<>>, <<>>))
Set(r, bs) == Node("set", "", r, <<>>, bs)
Let(bs, e) == Node("let", "", FALSE, <<Set(TRUE, bs), e>>, <<>>)
With(h, e) == Node("with", "", FALSE, <<h, e>>, <<>>)
Fn(s, e) == [Node("fn", "", TRUE, <<e>>, <<>>) EXCEPT !.s = s]

Names == {"a", "b"}
Binders == {"a", "import"}

(* Behaviours: pieces are put together *)
VARIABLES st, n, done
vars == <<st, n, done>>
Init == st = <<>> /\ n = 0 /\ done = FALSE
L == Len(st)
Rest(k) == SubSeq(st, 1, L - k)
One == {Set(r, <<B(d, st[L])>>) : r \in BOOLEAN, d \in Binders} \cup {Let(<<Inh(d)>>, st[L]) : d \in {"a"}} \cup {Let(<<B(d, Var("b"))>>, st[L]) : d \in Binders}
       \cup {Fn(s, st[L]) : s \in {<<>>, <<"a">>, <<"import">>}} \cup {Set(r, <<Inh("a"), B("b", st[L])>>) : r \in BOOLEAN}
Two == {List(<<st[L - 1], st[L]>>), With(st[L - 1], st[L]), Let(<<B("a", st[L - 1])>>, st[L])}
Leaf == ~done /\ L < 3 /\ L + n <= Depth + 1 /\ \E x \in Names : st' = Append(st, Var(x)) /\ UNCHANGED <<n, done>>
Up1 == ~done /\ n < Depth /\ L > 0 /\ \E e \in One : st' = Append(Rest(1), e) /\ n' = n + 1 /\ UNCHANGED done
Up2 == ~done /\ n < Depth /\ L > 1 /\ \E e \in Two : st' = Append(Rest(2), e) /\ n' = n + 1 /\ UNCHANGED done
End == ~done /\ L = 1 /\ n > 0 /\ done' = TRUE /\ UNCHANGED <<st, n>>
Next == Leaf \/ Up1 \/ Up2 \/ End

(* variables with no static binding: their names, and whether a with is around them *)
RECURSIVE Fv(_, _)
Drop(f, names) == {v \in f : v.n \notin names}
FvB(bs, in, out, w) == UNION {IF bs[i].v.k = "inh" THEN Drop({[n |-> bs[i].v.n, w |-> w]}, out) ELSE Drop(Fv(bs[i].v, w), in) : i \in DOMAIN bs}
Fv(x, w) ==
  CASE x.k = "var" -> {[n |-> x.n, w |-> w]}
    [] x.k = "set" -> FvB(x.b, IF x.r THEN First(x.b) ELSE {}, {}, w)
    [] x.k = "let" -> FvB(x.c[1].b, First(x.c[1].b), {}, w) \cup Drop(Fv(x.c[2], w), First(x.c[1].b))
    [] x.k = "fn" -> Drop(Fv(x.c[1], w), {x.s[i] : i \in DOMAIN x.s})
    [] x.k = "with" -> Fv(x.c[1], w) \cup Fv(x.c[2], TRUE)
    [] OTHER -> UNION {Fv(x.c[i], w) : i \in DOMAIN x.c}
RECURSIVE All(_)
All(x) == (IF x.k = "var" THEN {x.n} ELSE {}) \cup UNION {All(x.c[i]) : i \in DOMAIN x.c} \cup UNION {IF x.b[i].v.k = "inh" THEN {x.b[i].v.n} ELSE All(x.b[i].v) : i \in DOMAIN x.b}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE IF "a" \in S THEN <<"a">> \o Sorted(S \ {"a"}) ELSE IF "b" \in S THEN <<"b">> \o Sorted(S \ {"b"}) ELSE <<CHOOSE s \in S : TRUE>> \o Sorted(S \ {CHOOSE s \in S : TRUE})

(* The refactorings at one node, in the scope of the names bound, of a with if w *)
Needs(c, p) == c \in Omit \/ p
Convert(x, bound) ==
  IF x.k # "with" THEN {}
  ELSE LET fv == {v \in Fv(x.c[2], FALSE) : v.n \notin bound \cup Globals}
           names == {v.n : v \in {v \in fv : ~v.w}}
       IN IF names # {} /\ Needs("nested", \A v \in fv : ~v.w) /\ Needs("source", All(x.c[1]) \cap names = {})
          THEN {<<[x EXCEPT !.k = "mark"], [x EXCEPT !.k = "letw", !.s = Sorted(names)]>>} ELSE {}
AddParam(x, bound, w) ==
  IF x.k # "fn" \/ w THEN {}
  ELSE LET fv == {v \in Fv(x, FALSE) : v.n \notin bound \cup Globals}
       IN {<<[x EXCEPT !.k = "fnb", !.s = Append(@, v.n)], [x EXCEPT !.k = "fna", !.s = Append(@, v.n)]>> : v \in {v \in fv : ~v.w /\ Needs("with", [v EXCEPT !.w = TRUE] \notin fv)}}
Extract(x, bound, w) ==
  IF x.k \in {"var", "inh"} THEN {}
  ELSE LET fv == Fv(x, FALSE)
           out == {v \in fv : v.n \in bound \/ (w /\ v.n \notin Globals)}
           params == Sorted({v.n : v \in out})
       IN IF Needs("import", "import" \notin bound) /\ Needs("both", \A v \in out : v.w => v.n \in bound)
          THEN {<<x, [Node("inl", "", FALSE, <<Var("import")>> \o [i \in DOMAIN params |-> Var(params[i])] \o <<x>>, <<>>) EXCEPT !.s = params]>>} ELSE {}
RECURSIVE Ops(_, _, _)
In(x, i, ps) == {<<[x EXCEPT !.c[i] = p[1]], [x EXCEPT !.c[i] = p[2]]>> : p \in ps}
InB(x, i, ps) == {<<[x EXCEPT !.b[i].v = p[1]], [x EXCEPT !.b[i].v = p[2]]>> : p \in ps}
Ops(x, bound, w) ==
  Convert(x, bound) \cup AddParam(x, bound, w) \cup Extract(x, bound, w)
  \cup CASE x.k = "set" -> UNION {InB(x, i, Ops(x.b[i].v, bound \cup (IF x.r THEN First(x.b) ELSE {}), w)) : i \in {i \in DOMAIN x.b : x.b[i].v.k # "inh"}}
         [] x.k = "let" -> LET in == bound \cup First(x.c[1].b) IN In(x, 2, Ops(x.c[2], in, w)) \cup {<<[x EXCEPT !.c[1] = p[1]], [x EXCEPT !.c[1] = p[2]]>> : p \in UNION {InB(x.c[1], i, Ops(x.c[1].b[i].v, in, w)) : i \in {i \in DOMAIN x.c[1].b : x.c[1].b[i].v.k # "inh"}}}
         [] x.k = "fn" -> In(x, 1, Ops(x.c[1], bound \cup {x.s[i] : i \in DOMAIN x.s}, w))
         [] x.k = "with" -> In(x, 1, Ops(x.c[1], bound, w)) \cup In(x, 2, Ops(x.c[2], bound, TRUE))
         [] x.n = "list" -> UNION {In(x, i, Ops(x.c[i], bound, w)) : i \in DOMAIN x.c}
         [] OTHER -> {}

Keeps == done => \A p \in Ops(st[1], {}, FALSE) : Norm(p[1], <<>>) = Norm(p[2], <<>>)
Emit == (~done) \/ PrintT("@@" \o ToJson([t |-> TE(st[1])]))
=============================================================================
