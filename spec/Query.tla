------------------------------- MODULE Query --------------------------------
(* What is asked of the evaluators for a name under the cursor (C23).
   A pushdown machine writes a program and records every name on the way, with
   what has to be known to say which attribute path it denotes:
     v  a variable            i  a name in a plain inherit
     s  a name in a selection (base, path up to the name, whole path)
     o  a name in the path of a binding (path from the root set down to it)
     h  a hole between bindings            e  a dot at the end of a path
   A path is a sequence of names; Dyn stands for a name that has to be evaluated.
   Packages: pkgs is the root of nixpkgs and lib its library, whoever binds
   them; a name that no scope binds is taken from the innermost with.
   Options: a set that isn't the value of a binding is a module.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Randomization, Json
CONSTANTS DefNames, VarNames, AttrNames, Budget, MaxBinds, MaxPath, Forms, Globals, EmitAll,
          Few          \* how many paths are tried in each place (0: all)
VARIABLES out, stack, scopes, occ, left
VARS == <<out, stack, scopes, occ, left>>

Dyn == "${}"
W(s) == [t |-> "w", s |-> s]
T(s) == [k |-> "T", s |-> s]
E(e, p) == [k |-> "E", e |-> e, p |-> p, h |-> ""]   \* an expression in scope e that is the value of path p
S(e, p) == [k |-> "S", e |-> e, p |-> p, h |-> ""]
HS(e) == [k |-> "S", e |-> e, p |-> <<>>, h |-> "sel"]
(* Bindings of a set at path p: values see v, inherits see o, definitions go to s. *)
B(v, o, s, p) == [k |-> "B", v |-> v, o |-> o, s |-> s, p |-> p, n |-> 0, d |-> {}]
O(r) == [k |-> "O", r |-> r]               \* writes a name and records it
NoBase == [n |-> "", e |-> 0]

Init == out = <<>> /\ scopes = <<>> /\ occ = <<>> /\ left = Budget /\ stack = <<E(0, <<>>)>>
Top == stack[1]
Rest == Tail(stack)
Id == Len(out) + 1
In(f) == f \in Forms
Spend == left > 0 /\ left' = left - 1
Write(ps, ts) == out' = out \o ps /\ stack' = ts \o Rest
Occ(r, n, id, x) == [r |-> r, n |-> n, id |-> id] @@ x
V(n, e) == O([r |-> "v", n |-> n, e |-> e])
NewScope(par, kind, head) == [par |-> par, kind |-> kind, head |-> head, defs |-> {}]
NoHead == [base |-> NoBase, path |-> <<>>]
AddDef(scs, s, n) == IF s = 0 THEN scs ELSE [scs EXCEPT ![s].defs = @ \cup {n}]

(* A path of names written out: identifiers are recorded, the others aren't.
   rec(k) is what is recorded for its k-th name. *)
Texts == [i : AttrNames, q : {""}] \cup (IF In("quote") THEN [i : {""}, q : {"a", "a b"}] ELSE {}) \cup (IF In("dynamic") THEN {[i |-> "", q |-> Dyn]} ELSE {})
Name(t) == IF t.q = "" THEN t.i ELSE t.q
Names(ts) == [k \in DOMAIN ts |-> Name(ts[k])]
Upto(q, k) == SubSeq(q, 1, k)
Piece(t, r, e) == IF t.q = "" THEN <<O(r)>>
                  ELSE IF t.q = Dyn THEN <<T("${"), S(e, <<>>), T("}")>>
                  ELSE <<T("\"" \o t.q \o "\"")>>
RECURSIVE Dotted(_)
Dotted(pieces) == IF pieces = <<>> THEN <<>> ELSE IF Len(pieces) = 1 THEN pieces[1] ELSE pieces[1] \o <<T(".")>> \o Dotted(Tail(pieces))
SelPath(ts, base, e, open) ==
  Dotted([k \in DOMAIN ts |-> Piece(ts[k], [r |-> "s", n |-> ts[k].i, base |-> base, p |-> Upto(Names(ts), k), w |-> Names(ts)], e)])
  \o (IF open THEN (IF ts = <<>> THEN <<>> ELSE <<T(".")>>) \o <<[k |-> "D", r |-> [r |-> "e", n |-> "", base |-> base, p |-> Names(ts), w |-> Names(ts), o |-> FALSE]]>> ELSE <<>>)
BindPath(ts, p, e) ==
  Dotted([k \in DOMAIN ts |-> Piece(ts[k], [r |-> "o", n |-> ts[k].i, p |-> p \o Upto(Names(ts), k)], e)])
AllPaths == UNION {[1..k -> Texts] : k \in 1..MaxPath}
Paths == IF Few = 0 THEN AllPaths ELSE RandomSubset(Few, AllPaths)

Emitted == Top.k = "T" /\ Write(<<W(Top.s)>>, <<>>) /\ UNCHANGED <<scopes, occ, left>>
Recorded == Top.k = "O" /\ Write(<<W(Top.r.n)>>, <<>>) /\ occ' = Append(occ, [id |-> Id] @@ Top.r) /\ UNCHANGED <<scopes, left>>
(* recorded at the place of the last piece *)
Noted == Top.k = "D" /\ stack' = Rest /\ occ' = Append(occ, [id |-> Len(out)] @@ Top.r) /\ UNCHANGED <<out, scopes, left>>
Hole == Top.k = "H" /\ Write(<<[t |-> "h", s |-> ""]>>, <<>>) /\ occ' = Append(occ, [id |-> Id, r |-> "h", n |-> "", p |-> Top.p]) /\ UNCHANGED <<scopes, left>>

(* -- expressions -- *)
ESimple == Top.k = "E" /\ stack' = <<S(Top.e, Top.p)>> \o Rest /\ UNCHANGED <<out, scopes, occ, left>>
ELet == /\ Top.k = "E" /\ In("let") /\ Spend
        /\ scopes' = Append(scopes, NewScope(Top.e, "let", NoHead))
        /\ LET s == Len(scopes) + 1 IN Write(<<W("let")>>, <<B(s, Top.e, s, <<>>), T("in"), E(s, Top.p)>>)
        /\ UNCHANGED occ
EWith == /\ Top.k = "E" /\ In("with") /\ Spend
         /\ \E n \in VarNames : \E ts \in {<<>>} \cup [1..1 -> Texts] :
              LET h == [base |-> [n |-> n, e |-> Top.e], path |-> Names(ts)] IN
              /\ scopes' = Append(scopes, NewScope(Top.e, "with", h))
              /\ Write(<<W("with")>>, <<V(n, Top.e)>> \o (IF ts = <<>> THEN <<>> ELSE <<T(".")>> \o SelPath(ts, h.base, Top.e, FALSE)) \o <<T(";"), E(Len(scopes) + 1, Top.p)>>)
         /\ UNCHANGED occ
EWithOther == /\ Top.k = "E" /\ In("withother") /\ Spend
              /\ scopes' = Append(scopes, NewScope(Top.e, "with", NoHead))
              /\ \/ Write(<<W("with"), W("(")>>, <<E(Top.e, <<>>), T(")"), T(";"), E(Len(scopes) + 1, Top.p)>>)
                 \/ Write(<<W("with"), W("import ./a.nix"), W(";")>>, <<E(Len(scopes) + 1, Top.p)>>)
              /\ UNCHANGED occ
EFn == /\ Top.k = "E" /\ In("fn") /\ Spend
       /\ \E n \in DefNames \cup {"pkgs", "lib"} : \E f \in {<<W(n), W(":")>>, <<W("{"), W(n), W(", ... }:")>>} :
            /\ scopes' = Append(scopes, [NewScope(Top.e, "fn", NoHead) EXCEPT !.defs = {n}])
            /\ Write(f, <<E(Len(scopes) + 1, <<>>)>>)
       /\ UNCHANGED occ
EIf == /\ Top.k = "E" /\ In("if") /\ Spend
       /\ \/ Write(<<W("if")>>, <<E(Top.e, <<>>), T("then"), E(Top.e, Top.p), T("else"), E(Top.e, Top.p)>>)
          \/ Write(<<W("assert")>>, <<E(Top.e, <<>>), T(";"), E(Top.e, Top.p)>>)
       /\ UNCHANGED <<scopes, occ>>
EApp == /\ Top.k = "E" /\ In("app") /\ Spend
        /\ \E f \in VarNames : Write(<<>>, <<V(f, Top.e), S(Top.e, <<>>)>>)
        /\ UNCHANGED <<scopes, occ>>
EOp == /\ Top.k = "E" /\ In("op") /\ Spend
       /\ Write(<<>>, <<S(Top.e, <<>>), T("//"), S(Top.e, <<>>)>>) /\ UNCHANGED <<scopes, occ>>
SVar == /\ Top.k = "S" /\ \E n \in VarNames : Write(<<>>, <<V(n, Top.e)>>)
        /\ UNCHANGED <<scopes, occ, left>>
SLit == Top.k = "S" /\ Top.h = "" /\ Write(<<W("1")>>, <<>>) /\ UNCHANGED <<scopes, occ, left>>
SParen == Top.k = "S" /\ In("paren") /\ Spend /\ Write(<<W("(")>>, <<E(Top.e, IF Top.h = "" THEN Top.p ELSE <<>>), T(")")>>) /\ UNCHANGED <<scopes, occ>>
SList == Top.k = "S" /\ In("list") /\ Spend /\ Write(<<W("[")>>, <<S(Top.e, <<>>), S(Top.e, <<>>), T("]")>>) /\ UNCHANGED <<scopes, occ>>
SStr == Top.k = "S" /\ Top.h = "" /\ In("str") /\ Spend /\ Write(<<W("\"${")>>, <<E(Top.e, <<>>), T("}\"")>>) /\ UNCHANGED <<scopes, occ>>
SSet == /\ Top.k = "S" /\ In("set") /\ Spend /\ UNCHANGED occ
        /\ \/ Write(<<W("{")>>, <<B(Top.e, Top.e, 0, IF Top.h = "" THEN Top.p ELSE <<>>), T("}")>>) /\ UNCHANGED scopes
           \/ /\ In("rec") /\ scopes' = Append(scopes, NewScope(Top.e, "rec", NoHead))
              /\ LET s == Len(scopes) + 1 IN Write(<<W("rec"), W("{")>>, <<B(s, Top.e, s, IF Top.h = "" THEN Top.p ELSE <<>>), T("}")>>)
SSelect == /\ Top.k = "S" /\ In("select") /\ Spend /\ UNCHANGED <<scopes, occ>>
           /\ \E end \in {"", "open", "or"} \cap (Forms \cup {""}) : \E ts \in Paths \cup (IF end = "open" THEN {<<>>} ELSE {}) : LET open == end = "open" IN
              \/ \E n \in VarNames : LET base == [n |-> n, e |-> Top.e] IN
                   Write(<<W("(")>>, <<V(n, Top.e), T(".")>> \o SelPath(ts, base, Top.e, open)
                                     \o (IF end = "or" THEN <<T("or"), S(Top.e, <<>>)>> ELSE <<>>) \o <<T(")")>>)
              \/ In("paren") /\ Write(<<W("((")>>, <<E(Top.e, <<>>), T(")"), T(".")>> \o SelPath(ts, NoBase, Top.e, open) \o <<T(")")>>)

(* -- bindings -- *)
Again(d) == [Top EXCEPT !.n = @ + 1, !.d = @ \cup d]
IsB == Top.k = "B" /\ Top.n < MaxBinds
Holes == IF In("hole") /\ (IF Top.s = 0 THEN TRUE ELSE scopes[Top.s].kind = "rec") THEN <<[k |-> "H", p |-> Top.p]>> ELSE <<>>
BEnd == Top.k = "B" /\ Write(<<>>, Holes) /\ UNCHANGED <<scopes, occ, left>>
(* the first name is new in this set *)
BPath == /\ IsB /\ UNCHANGED <<occ, left>>
         /\ \E ts \in {ts \in Paths : ts[1].i \in (DefNames \ Top.d) \cup {""} /\ (ts[1].q # "" => ts[1].q \notin Top.d) /\ (ts[1].q = Dyn => Top.s = 0)} :
              LET n == Name(ts[1]) IN
              /\ scopes' = IF n = Dyn THEN scopes ELSE AddDef(scopes, Top.s, n)
              /\ Write(<<>>, Holes \o BindPath(ts, Top.p, Top.v) \o <<T("="), E(Top.v, Top.p \o Names(ts)), T(";"), Again({n})>>)
BOpen == /\ IsB /\ In("open") /\ Top.s = 0 /\ UNCHANGED <<scopes, occ, left>>
         /\ \E ts \in {ts \in Paths : ts[1].i \in (DefNames \ Top.d) \cup {""} /\ (ts[1].q # "" => ts[1].q \notin Top.d)} :
              \/ Write(<<>>, BindPath(ts, Top.p, Top.v) \o <<T("."), [k |-> "D", r |-> [r |-> "e", n |-> "", base |-> NoBase, p |-> Top.p \o Names(ts), w |-> <<>>, o |-> TRUE]],
                                                            T("="), T("1"), T(";"), Again({Name(ts[1])})>>)
              \/ ts[Len(ts)].q = "" /\ Write(<<>>, BindPath(ts, Top.p, Top.v))     \* and nothing else, yet
BInherit == /\ IsB /\ In("inherit") /\ UNCHANGED left
            /\ \E n \in DefNames \ Top.d :
                 /\ scopes' = AddDef(scopes, Top.s, n)
                 /\ Write(<<W("inherit"), W(n), W(";")>>, <<Again({n})>>)
                 /\ occ' = Append(occ, [r |-> "i", n |-> n, id |-> Id + 1, e |-> Top.o])
BFrom == /\ IsB /\ In("from") /\ UNCHANGED <<occ, left>>
         /\ \E n \in DefNames \ Top.d :
              /\ scopes' = AddDef(scopes, Top.s, n)
              /\ Write(<<W("inherit"), W("(")>>, <<E(Top.v, <<>>), T(")"), O([r |-> "f", n |-> n]), T(";"), Again({n})>>)

Next == stack # <<>> /\
        (\/ Emitted \/ Recorded \/ Noted \/ Hole
         \/ ESimple \/ ELet \/ EWith \/ EWithOther \/ EFn \/ EIf \/ EApp \/ EOp
         \/ SVar \/ SLit \/ SParen \/ SList \/ SStr \/ SSet \/ SSelect
         \/ BEnd \/ BPath \/ BOpen \/ BInherit \/ BFrom)

(* -- what the names denote -- *)
None == [ok |-> FALSE, p |-> <<>>]
Some(p) == IF \E k \in DOMAIN p : p[k] = Dyn THEN None ELSE [ok |-> TRUE, p |-> p]
RECURSIVE Look(_, _, _)
Look(n, e, w) == IF e = 0 THEN IF n \in Globals THEN [k |-> "def", w |-> 0] ELSE IF w > 0 THEN [k |-> "with", w |-> w] ELSE [k |-> "undef", w |-> 0]
                 ELSE IF n \in scopes[e].defs THEN [k |-> "def", w |-> 0]
                 ELSE Look(n, scopes[e].par, IF w = 0 /\ scopes[e].kind = "with" THEN e ELSE w)
Idiom(n) == IF n = "pkgs" THEN Some(<<>>) ELSE IF n = "lib" THEN Some(<<"lib">>) ELSE None
RECURSIVE Sel(_, _)
WithSel(w) == LET h == scopes[w].head IN
           IF h.base = NoBase THEN None
           ELSE LET b == Sel(h.base.n, h.base.e) IN IF b.ok THEN Some(b.p \o h.path) ELSE None
Sel(n, e) == LET r == Look(n, e, 0) IN
             IF r.k = "with" THEN LET h == WithSel(r.w) IN IF h.ok THEN Some(Append(h.p, n)) ELSE None
             ELSE Idiom(n)
Below(base, p) == IF base = NoBase THEN None ELSE LET b == Sel(base.n, base.e) IN IF b.ok THEN Some(b.p \o p) ELSE None
Option(p) == IF Len(p) > 1 /\ p[1] = "config" THEN Some(Tail(p)) ELSE Some(p)
RECURSIVE InPkgs(_)
InPkgs(e) == IF e = 0 THEN FALSE
             ELSE (scopes[e].kind = "with" /\ scopes[e].head = [base |-> [n |-> "pkgs", e |-> scopes[e].par], path |-> <<>>]) \/ InPkgs(scopes[e].par)
(* Which path is asked for by hover, definition, completion and inlay hints, and of whom. *)
Asks(o) ==
  CASE o.r = "v" -> LET s == Sel(o.n, o.e) l == Look(o.n, o.e, 0) IN
                    [hover |-> s, def |-> IF l.k = "undef" THEN None ELSE s, comp |-> IF l.k = "with" THEN s ELSE None,
                     inlay |-> IF l.k = "with" /\ InPkgs(o.e) THEN s ELSE None, opt |-> FALSE]
    [] o.r = "i" -> LET s == Sel(o.n, o.e) l == Look(o.n, o.e, 0) IN
                    [hover |-> None, def |-> IF l.k = "undef" THEN None ELSE s, comp |-> None, inlay |-> None, opt |-> FALSE]
    [] o.r = "f" -> [hover |-> None, def |-> None, comp |-> None, inlay |-> None, opt |-> FALSE]
    [] o.r = "s" -> LET w == Below(o.base, o.w) IN [hover |-> w, def |-> w, comp |-> Below(o.base, o.p), inlay |-> None, opt |-> FALSE]
    [] o.r = "o" -> LET w == Option(o.p) IN [hover |-> w, def |-> w, comp |-> w, inlay |-> None, opt |-> TRUE]
    [] o.r = "h" -> [hover |-> None, def |-> None, comp |-> Option(Append(o.p, "")), inlay |-> None, opt |-> TRUE]
    [] o.r = "e" -> [hover |-> None, def |-> None, comp |-> IF o.o THEN Option(Append(o.p, "")) ELSE Below(o.base, Append(o.p, "")), inlay |-> None, opt |-> o.o]

Done == stack = <<>>
(* What is asked ends in the name the cursor is on, what is asked about a part of a selection extends to what is asked
   about the whole, and nothing is asked through a name that has to be evaluated. *)
Sound == Done => \A k \in DOMAIN occ : LET o == occ[k] a == Asks(o) IN
  /\ \A q \in {a.comp, a.inlay} : (q.ok /\ q.p # <<>>) => (q.p[Len(q.p)] = o.n)
  /\ \A q \in {a.hover, a.def, a.comp, a.inlay} : q.ok => \A j \in DOMAIN q.p : q.p[j] # Dyn
  /\ (o.r = "s" /\ a.hover.ok) => (a.comp.ok /\ SubSeq(a.hover.p, 1, Len(a.comp.p)) = a.comp.p)
  /\ (a.inlay.ok => a.hover = a.inlay)
Case == [out |-> out, occ |-> [k \in DOMAIN occ |-> [id |-> occ[k].id, r |-> occ[k].r, n |-> occ[k].n, a |-> Asks(occ[k])]]]
Emit == (Done /\ (EmitAll \/ left = 0)) => PrintT("@@" \o ToJson(Case))
=============================================================================
