------------------------------ MODULE Complete ------------------------------
(* Completion of a variable (C20): the names of Scope's lexical scopes that are
   visible where it stands and start with what is typed, and the global names. *)
EXTENDS Scope
CONSTANT Roots        \* the global names, without those starting with __
StartsWith(n, p) == Len(p) <= Len(n) /\ SubSeq(n, 1, Len(p)) = p
Matching(v) == {x[1] : x \in {y \in Visible(v.e) : StartsWith(y[1], v.n)}}
Offered(v) == [bound |-> Matching(v), root |-> {g \in Roots \ Matching(v) : StartsWith(g, v.n)}]
Texted(k) == vars[k].role = "v"
(* What is offered can be referred to there, and what may be typed further to
   refer to a binding is offered. *)
OffersResolve == Done => \A k \in DOMAIN vars : LET o == Offered(vars[k]) IN
   /\ \A n \in o.bound : LookIn(scopes, n, vars[k].e, <<>>).k = "def"
   /\ \A n \in DefNames : StartsWith(n, vars[k].n) => (n \in o.bound) = (LookIn(scopes, n, vars[k].e, <<>>).k = "def")
   /\ (Res(vars[k]).k = "def" => vars[k].n \in o.bound)
Completions == [out |-> out, vars |-> [k \in DOMAIN vars |-> [n |-> vars[k].n, id |-> vars[k].id, role |-> vars[k].role, o |-> Offered(vars[k])]]]
EmitC == (Done /\ (EmitAll \/ left = 0)) => PrintT("@@" \o ToJson(Completions))
=============================================================================
