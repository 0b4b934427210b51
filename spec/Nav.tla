-------------------------------- MODULE Nav --------------------------------
(* Navigation (C12): what go-to-definition, references, highlights and rename
   have to answer at every occurrence of a name in a program of Scope.      *)
EXTENDS Scope
(* The binding an occurrence talks about, 0 if it is none of let, rec or a function. *)
VarsAt(id) == {k \in DOMAIN vars : vars[k].id = id}
VarAt(id) == vars[CHOOSE k \in VarsAt(id) : TRUE]
DefIds == {D(q).id : q \in AllDefs}
Target(id) == IF VarsAt(id) # {} THEN LET r == Res(VarAt(id)) IN IF r.k = "def" THEN r.id ELSE 0
              ELSE IF id \in DefIds THEN id
              ELSE IF out[id].t = "p" THEN out[id].d ELSE 0
DefQ(id) == CHOOSE q \in AllDefs : D(q).id = id
(* `inherit a;` binds an inner a to an outer one: both bear one name. *)
Linked(id) == {v.id : v \in {vars[k] : k \in {k \in DOMAIN vars : vars[k].id \in DefIds /\ Res(vars[k]).k = "def" /\ Res(vars[k]).id = id}}}
              \cup (IF D(DefQ(id)).src = "inherit" /\ Target(id) # 0 THEN {Target(id)} ELSE {})
RECURSIVE Close(_)
Close(C) == LET n == C \cup UNION {Linked(id) : id \in C} IN IF n = C THEN C ELSE Close(n)
Class(id) == Close({id})
Sites(id) == {id} \cup {k \in DOMAIN out : out[k].t = "p" /\ out[k].d = id}
Places(C) == UNION {Sites(id) \cup Uses(id) : id \in C}
(* The name is given from elsewhere: an attribute of another value, or the result of a legacy let. *)
Fixed(id) == LET d == D(DefQ(id)) IN
             \/ d.src = "from"
             \/ d.src = "inherit" /\ Target(id) = 0
             \/ d.n = "body" /\ scopes[DefQ(id)[1]].kind = "oldlet"
CanRename(C) == \A id \in C : ~Fixed(id)

(* Renaming a class to a fresh name does not change what any variable resolves to,
   and a part of it renamed alone would.                                         *)
Fresh == "fresh"
NameAt(id, n, P) == IF id \in P THEN Fresh ELSE n
Renamed(P) == [s \in DOMAIN scopes |-> [scopes[s] EXCEPT !.defs = [k \in DOMAIN @ |-> [@[k] EXCEPT !.n = NameAt(scopes[s].defs[k].id, @, P)]]]]
SameMeaning(P) == \A k \in DOMAIN vars : LookIn(Renamed(P), NameAt(vars[k].id, vars[k].n, P), vars[k].e, <<>>) = Res(vars[k])
RenameSound == Done => \A id \in DefIds : CanRename(Class(id)) => SameMeaning(Places(Class(id)))
RenameMinimal == Done => \A id \in DefIds : LET P == Places(Class(id)) IN
                   \A x \in P \cap DefIds : ~SameMeaning({x}) \/ Uses(x) \cup (IF VarsAt(x) # {} /\ Target(x) # 0 THEN {x} ELSE {}) = {}

Nav == [out |-> out,
        occ |-> {[id |-> id, t |-> out[id].t, def |-> Target(id)] : id \in {k \in DOMAIN out : out[k].t # "w"}},
        defs |-> {[id |-> id, uses |-> Uses(id), sites |-> Sites(id), ok |-> CanRename(Class(id)), places |-> Places(Class(id))] : id \in DefIds}]
EmitNav == (Done /\ (EmitAll \/ left = 0)) => PrintT("@@" \o ToJson(Nav))
=============================================================================
