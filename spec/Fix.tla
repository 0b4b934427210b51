-------------------------------- MODULE Fix --------------------------------
(* Quick fixes of the reports on names (C13).  The program a fix promises is a
   sequence of pieces of the old one and of new texts; what it means is stated
   by changing the recorded scopes.  FixSound: what stays keeps its meaning.  *)
EXTENDS Scope
To(id) == LET k == CHOOSE k \in DOMAIN marks : marks[k].id = id IN marks[k].to
Marked(id) == \E k \in DOMAIN marks : marks[k].id = id
ScopeOf(id) == CHOOSE s \in DOMAIN scopes : scopes[s].id = id
DQ(id) == CHOOSE q \in AllDefs : D(q).id = id
Old(i) == [i |-> i, s |-> ""]
New(s) == [i |-> 0, s |-> s]
Range(a, b) == [k \in 1 .. (b - a + 1) |-> Old(a + k - 1)]
Without(R) == SelectSeq(Range(1, Len(out)), LAMBDA x : x.i \notin R)
Span(id) == id .. To(id)
Bound(id) == {k \in DOMAIN out : k = id \/ (out[k].t = "p" /\ out[k].d = id)}
(* scopes after: those in S become transparent, definitions in R vanish *)
Change(SS, R) == [s \in DOMAIN scopes |-> IF s \in SS THEN [scopes[s] EXCEPT !.kind = "none", !.defs = <<>>]
                                          ELSE [scopes[s] EXCEPT !.defs = SelectSeq(@, LAMBDA d : d.id \notin R)]]
Fixed(seq, sc, vs) == [seq |-> seq, sc |-> sc, vars |-> vs]
Keep0 == [k \in DOMAIN vars |-> vars[k]]
Kept(R) == SelectSeq(vars, LAMBDA v : v.id \notin R)
(* -- the fixes -- *)
DropWith(id) == LET R == Span(id) IN Fixed(Without(R), Change({ScopeOf(id)}, R), Kept(R))
DropRec(id) == Fixed(Without({id}), Change({ScopeOf(id)}, {}), vars)
DropBinding(id) == LET R == UNION {Span(b) : b \in Bound(id)} IN Fixed(Without(R), Change({}, R), Kept(R))
DropPrefix(id) == Fixed(Without({id, id + 1}), scopes, [k \in DOMAIN vars |-> IF vars[k].id = id THEN [vars[k] EXCEPT !.n = out[id + 2].s, !.id = id + 2] ELSE vars[k]])
DropInherited(id) == Fixed(Without({id}), Change({}, {id}), vars)
AddPrefix(id) == Fixed(Range(1, id - 1) \o <<New("builtins.")>> \o Range(id, Len(out)), scopes, SelectSeq(vars, LAMBDA v : v.id # id))
(* let { body = v; b } becomes let b in v *)
Modern(id) == LET b == id + 2 IN
              Fixed(Range(1, id) \o Range(To(b) + 1, To(id) - 1) \o <<New("in")>> \o Range(b + 2, To(b) - 1) \o Range(To(id) + 1, Len(out)),
                    Change({}, {b}), vars)
Body(id) == \E k \in DOMAIN vars : Res(vars[k]).k = "def" /\ Res(vars[k]).id = id + 2
Fixes ==
  LET R == Reports IN
  {[rep |-> r, f |-> DropWith(r[2])] : r \in {r \in R : r[1] = "extra-with"}}
  \cup {[rep |-> r, f |-> DropRec(r[2])] : r \in {r \in R : r[1] = "extra-rec"}}
  \cup {[rep |-> r, f |-> DropBinding(r[2])] : r \in {r \in R : r[1] = "unused-let" /\ D(DQ(r[2])).src = "bind"}}
  \cup {[rep |-> r, f |-> DropPrefix(r[2])] : r \in {r \in R : r[1] = "removable-prefix" /\ out[r[2]].t = "v"}}
  \cup {[rep |-> r, f |-> DropInherited(r[2])] : r \in {r \in R : r[1] = "removable-prefix" /\ out[r[2]].t # "v"}}
  \cup {[rep |-> r, f |-> AddPrefix(r[2])] : r \in {r \in R : r[1] = "needs-prefix" /\ out[r[2]].t = "v"}}
  \cup {[rep |-> <<"deprecated-let", scopes[s].id>>, f |-> Modern(scopes[s].id)]
        : s \in {s \in DOMAIN scopes : scopes[s].kind = "oldlet" /\ ~Body(scopes[s].id) /\ scopes[s].arg # "dynamic"}}
After(f, v) == LookIn(f.sc, v.n, v.e, <<>>)
Before(id) == LET k == CHOOSE k \in DOMAIN vars : vars[k].id = id IN Res(vars[k])
ViaBuiltins(r) == r.k = "def" /\ D(DQ(r.id)).viaB
Gone(f, id) == \A k \in DOMAIN f.seq : f.seq[k].i # id
(* Every variable that stays refers to what it referred to. *)
FixSound == Done => \A x \in Fixes : \A k \in DOMAIN x.f.vars :
  LET v == x.f.vars[k] a == After(x.f, v) IN
  \/ \A j \in DOMAIN vars : vars[j].id # v.id                                     \* was an attribute of builtins
  \/ LET b == Before(v.id) IN
     \/ a = b
     \/ ViaBuiltins(b) /\ Gone(x.f, b.id) /\ a.k = "builtin"
(* ... and the piece sequence is the old program but for what the fix is about. *)
FixShape == Done => \A x \in Fixes : \A i \in 1 .. Len(x.f.seq), j \in 1 .. Len(x.f.seq) : (i # j /\ x.f.seq[i].i # 0) => x.f.seq[i].i # x.f.seq[j].i
FixCase == [out |-> out, fixes |-> {[rep |-> x.rep, seq |-> x.f.seq, vars |-> {[id |-> x.f.vars[k].id, r |-> After(x.f, x.f.vars[k])] : k \in DOMAIN x.f.vars}] : x \in Fixes}]
EmitFix == (Done /\ (EmitAll \/ left = 0)) => PrintT("@@" \o ToJson(FixCase))
=============================================================================
