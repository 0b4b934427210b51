------------------------------- MODULE Scope -------------------------------
(* Lexical scoping of Nix (C10-C13, C17, C20).  A pushdown machine writes a
   program, leftmost derivation first, and records on the way the scopes it
   opens, what they define and which scope each variable occurrence is in.
   When the stack is empty the program is complete and every occurrence is
   resolved by walking the recorded scopes as libexpr's StaticEnv does.
   Occurrences and keywords are identified by their index in out.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS DefNames,    \* names that binding forms bind
          VarNames,    \* names that occur as variables
          AttrNames,   \* names used after a dot
          Budget,      \* how many compound expressions
          MaxBinds,    \* bindings per set
          Forms,       \* which expression forms are used
          BindForms,   \* which binding forms are used
          Globals, Prefixed, Consts,   \* names of builtins: global, only with prefix, constants
          EmitAll      \* print complete programs of any size, or only those that use the budget up

VARIABLES out, stack, scopes, vars, sels, left,
          marks     \* where bindings and the heads of with expressions end
VARS == <<out, stack, scopes, vars, sels, left, marks>>

E(e) == [k |-> "E", e |-> e]
S(e) == [k |-> "S", e |-> e, h |-> ""]
H(e) == [k |-> "S", e |-> e, h |-> "call"]   \* called
HS(e) == [k |-> "S", e |-> e, h |-> "sel"]   \* selected from; builtins.n is SBuiltin
T(s) == [k |-> "T", s |-> s]
(* Bindings: values see v, plain inherits see o; defs go to scope s (0: none) *)
B(v, o, s) == [k |-> "B", v |-> v, o |-> o, s |-> s, n |-> 0, d |-> {}, p |-> {}]
F(s) == [k |-> "F", s |-> s, n |-> 0, d |-> {}]

M(id) == [k |-> "M", id |-> id]

Init == /\ out = <<>> /\ marks = <<>> /\ scopes = <<>> /\ vars = <<>> /\ sels = <<>> /\ left = Budget
        /\ stack = <<E(0)>>
Top == stack[1]
Rest == Tail(stack)
Id == Len(out) + 1
NewScope(par, kind, id, arg) == [par |-> par, kind |-> kind, id |-> id, arg |-> arg, defs |-> <<>>]
Def(n, id, src, viaB) == [n |-> n, id |-> id, src |-> src, viaB |-> viaB]
AddDef(scs, s, d) == IF s = 0 THEN scs ELSE [scs EXCEPT ![s].defs = Append(@, d)]
W(s) == [t |-> "w", s |-> s]           \* pieces of text
N(s, r) == [t |-> r, s |-> s]          \* name occurrences: v variable, d definition, i inherited, a attribute

Emitted == /\ Top.k = "T"
           /\ out' = Append(out, W(Top.s)) /\ stack' = Rest
           /\ UNCHANGED <<scopes, vars, sels, left>>

Write(pieces, tasks) == out' = out \o pieces /\ stack' = tasks \o Rest
UseVar(n, id, e, role) == vars' = Append(vars, [n |-> n, id |-> id, e |-> e, role |-> role])
Keep(e) == UNCHANGED <<scopes, vars, sels, left>>
Spend == left > 0 /\ left' = left - 1
In(f) == f \in Forms

(* Expressions that may stand anywhere. *)
ESimple == /\ Top.k = "E" /\ stack' = <<S(Top.e)>> \o Rest /\ UNCHANGED <<out, scopes, vars, sels, left>>
ELet == /\ Top.k = "E" /\ In("let") /\ Spend
        /\ scopes' = Append(scopes, NewScope(Top.e, "let", Id, ""))
        /\ LET s == Len(scopes) + 1 IN Write(<<W("let")>>, <<B(s, Top.e, s), T("in"), E(s)>>)
        /\ UNCHANGED <<vars, sels>>
EWith == /\ Top.k = "E" /\ In("with") /\ Spend
         /\ scopes' = Append(scopes, NewScope(Top.e, "with", Id, ""))
         /\ LET s == Len(scopes) + 1 IN Write(<<W("with")>>, <<E(Top.e), T(";"), M(Id), E(s)>>)
         /\ UNCHANGED <<vars, sels>>
EFn == /\ Top.k = "E" /\ In("fn") /\ Spend
       /\ \E n \in DefNames :
            scopes' = Append(scopes, [NewScope(Top.e, "fn", Id, n) EXCEPT !.defs = <<Def(n, Id, "arg", FALSE)>>])
            /\ LET s == Len(scopes) + 1 IN Write(<<N(n, "d"), W(":")>>, <<E(s)>>)
       /\ UNCHANGED <<vars, sels>>
EFormals == /\ Top.k = "E" /\ In("formals") /\ Spend
            /\ LET s == Len(scopes) + 1 IN
               \/ /\ scopes' = Append(scopes, NewScope(Top.e, "formals", Id, ""))
                  /\ Write(<<W("{")>>, <<F(s), T(":"), E(s)>>)
               \/ /\ In("at") /\ \E n \in DefNames :
                     /\ scopes' = Append(scopes, [NewScope(Top.e, "formals", Id, n) EXCEPT !.defs = <<Def(n, Id, "atarg", FALSE)>>])
                     /\ Write(<<N(n, "d"), W("@"), W("{")>>, <<[F(s) EXCEPT !.d = {n}], T(":"), E(s)>>)
            /\ UNCHANGED <<vars, sels>>
EIf == /\ Top.k = "E" /\ In("if") /\ Spend
       /\ Write(<<W("if")>>, <<E(Top.e), T("then"), E(Top.e), T("else"), E(Top.e)>>) /\ UNCHANGED <<scopes, vars, sels>>
EAssert == /\ Top.k = "E" /\ In("assert") /\ Spend
           /\ Write(<<W("assert")>>, <<E(Top.e), T(";"), E(Top.e)>>) /\ UNCHANGED <<scopes, vars, sels>>
EApp == /\ Top.k = "E" /\ In("app") /\ Spend
        /\ Write(<<>>, <<H(Top.e), S(Top.e)>>) /\ UNCHANGED <<scopes, vars, sels>>
EOp == /\ Top.k = "E" /\ In("op") /\ Spend
       /\ Write(<<>>, <<S(Top.e), T("++"), S(Top.e)>>) /\ UNCHANGED <<scopes, vars, sels>>
EHas == /\ Top.k = "E" /\ In("has") /\ Spend
        /\ \/ Write(<<>>, <<S(Top.e), T("? ${"), E(Top.e), T("}")>>)
           \/ \E n \in AttrNames : Write(<<>>, <<S(Top.e), T("?"), [k |-> "A", n |-> n]>>)
        /\ UNCHANGED <<scopes, vars, sels>>
(* Simple expressions.  Numbers and strings are neither called nor selected from. *)
SVar == /\ Top.k = "S" /\ \E n \in VarNames \ (IF Top.h = "sel" /\ In("builtins") THEN {"builtins"} ELSE {}) : UseVar(n, Id, Top.e, "v") /\ Write(<<N(n, "v")>>, <<>>)
        /\ UNCHANGED <<scopes, sels, left>>
SLit == Top.k = "S" /\ Top.h = "" /\ In("lit") /\ Write(<<W("1")>>, <<>>) /\ UNCHANGED <<scopes, vars, sels, left>>
SParen == /\ Top.k = "S" /\ In("paren") /\ Spend /\ Write(<<W("(")>>, <<E(Top.e), T(")")>>) /\ UNCHANGED <<scopes, vars, sels>>
SList == /\ Top.k = "S" /\ In("list") /\ Spend /\ Write(<<W("[")>>, <<S(Top.e), S(Top.e), T("]")>>) /\ UNCHANGED <<scopes, vars, sels>>
SStr == /\ Top.k = "S" /\ Top.h = "" /\ In("str") /\ Spend /\ Write(<<W("\"a${")>>, <<E(Top.e), T("}b\"")>>) /\ UNCHANGED <<scopes, vars, sels>>
SRec == /\ Top.k = "S" /\ In("rec") /\ Spend
        /\ scopes' = Append(scopes, NewScope(Top.e, "rec", Id, ""))
        /\ LET s == Len(scopes) + 1 IN Write(<<W("rec"), W("{")>>, <<B(s, Top.e, s), T("}")>>)
        /\ UNCHANGED <<vars, sels>>
SOldLet == /\ Top.k = "E" /\ In("oldlet") /\ Spend
           /\ scopes' = Append(scopes, [NewScope(Top.e, "oldlet", Id, "") EXCEPT !.defs = <<Def("body", Id + 2, "bind", FALSE)>>])
           /\ LET s == Len(scopes) + 1 IN
              Write(<<W("let"), W("{"), N("body", "d"), W("=")>>, <<E(s), T(";"), M(Id + 2), [B(s, Top.e, s) EXCEPT !.d = {"body"}], T("}"), M(Id)>>)
           /\ UNCHANGED <<vars, sels>>
SSet == /\ Top.k = "S" /\ In("set") /\ Spend
        /\ Write(<<W("{")>>, <<B(Top.e, Top.e, 0), T("}")>>) /\ UNCHANGED <<scopes, vars, sels>>
SSelect == /\ Top.k = "S" /\ In("select") /\ Spend
           /\ \/ \E n \in AttrNames : Write(<<>>, <<HS(Top.e), T("."), [k |-> "A", n |-> n]>>)
              \/ Write(<<>>, <<HS(Top.e), T(".${"), E(Top.e), T("}")>>)
              \/ \E n \in AttrNames : Write(<<W("(")>>, <<HS(Top.e), T("."), [k |-> "A", n |-> n], T("or"), S(Top.e), T(")")>>)
           /\ UNCHANGED <<scopes, vars, sels>>
(* builtins.n *)
SBuiltin == /\ Top.k = "S" /\ Top.h # "sel" /\ In("builtins") /\ Spend
            /\ \E n \in AttrNames :
                 /\ sels' = Append(sels, [n |-> n, id |-> Id, nid |-> Id + 2, e |-> Top.e])
                 /\ UseVar("builtins", Id, Top.e, "v")
                 /\ Write(<<N("builtins", "v"), W("."), N(n, "a")>>, <<>>)
            /\ UNCHANGED scopes
Mark == /\ Top.k = "M" /\ marks' = Append(marks, [id |-> Top.id, to |-> Len(out)]) /\ stack' = Rest
        /\ UNCHANGED <<out, scopes, vars, sels, left>>
Attr == Top.k = "A" /\ Write(<<N(Top.n, "a")>>, <<>>) /\ UNCHANGED <<scopes, vars, sels, left>>

(* Bindings. *)
Again(t) == [t EXCEPT !.n = @ + 1]
Src(s) == scopes[s].kind
InB(f) == f \in BindForms
BEnd == /\ Top.k = "B" /\ stack' = Rest /\ UNCHANGED <<out, scopes, vars, sels, left>>
BPlain == /\ Top.k = "B" /\ Top.n < MaxBinds
          /\ \E n \in DefNames \ Top.d :
               /\ scopes' = AddDef(scopes, Top.s, Def(n, Id, "bind", FALSE))
               /\ Write(<<N(n, "d"), W("=")>>, <<E(Top.v), T(";"), M(Id), [Again(Top) EXCEPT !.d = @ \cup {n}]>>)
          /\ UNCHANGED <<vars, sels, left>>
(* n.m: the first such binding defines n *)
Binder(s, n) == IF s = 0 THEN 0 ELSE scopes[s].defs[CHOOSE k \in DOMAIN scopes[s].defs : scopes[s].defs[k].n = n].id
BPath == /\ Top.k = "B" /\ Top.n < MaxBinds /\ InB("path")
         /\ \E n \in DefNames, m \in AttrNames :
              /\ <<n, m>> \notin Top.p
              /\ (n \in Top.d => \E q \in Top.p : q[1] = n)
              /\ scopes' = IF n \in Top.d THEN scopes ELSE AddDef(scopes, Top.s, Def(n, Id, "bind", FALSE))
              /\ Write(<<IF n \in Top.d THEN [t |-> "p", s |-> n, d |-> Binder(Top.s, n)] ELSE N(n, "d"), W("."), N(m, "a"), W("=")>>,
                       <<E(Top.v), T(";"), M(Id), [Again(Top) EXCEPT !.d = @ \cup {n}, !.p = @ \cup {<<n, m>>}]>>)
         /\ UNCHANGED <<vars, sels, left>>
BInherit == /\ Top.k = "B" /\ Top.n < MaxBinds /\ InB("inherit")
            /\ \E n \in DefNames \ Top.d :
                 /\ scopes' = AddDef(scopes, Top.s, Def(n, Id + 1, "inherit", FALSE))
                 /\ UseVar(n, Id + 1, Top.o, "i")
                 /\ Write(<<W("inherit"), N(n, "i"), W(";")>>, <<[Again(Top) EXCEPT !.d = @ \cup {n}]>>)
            /\ UNCHANGED <<sels, left>>
BInheritFrom == /\ Top.k = "B" /\ Top.n < MaxBinds /\ InB("from")
                /\ \E n, m \in DefNames \ Top.d :
                     Write(<<W("inherit"), W("(")>>, <<E(Top.v), T(")"), [k |-> "I", s |-> Top.s, n |-> n], [k |-> "I", s |-> IF m = n THEN 0 ELSE Top.s, n |-> IF m = n THEN "" ELSE m], T(";"),
                           [Again(Top) EXCEPT !.d = @ \cup {n, m}]>>)
                /\ UNCHANGED <<scopes, vars, sels, left>>
BInheritNone == /\ Top.k = "B" /\ Top.n < MaxBinds /\ InB("none")
                /\ Write(<<W("inherit"), W("(")>>, <<E(Top.v), T(")"), T(";"), Again(Top)>>)
                /\ UNCHANGED <<scopes, vars, sels, left>>
BInheritBuiltins == /\ Top.k = "B" /\ Top.n < MaxBinds /\ InB("builtins")
                    /\ \E n \in DefNames \ Top.d :
                         /\ UseVar("builtins", Id + 2, Top.v, "v")
                         /\ scopes' = AddDef(scopes, Top.s, Def(n, Id + 4, "from", TRUE))
                         /\ Write(<<W("inherit"), W("("), N("builtins", "v"), W(")"), N(n, "f"), W(";")>>, <<[Again(Top) EXCEPT !.d = @ \cup {n}]>>)
                    /\ UNCHANGED <<sels, left>>
(* inherit (builtins) n m: are n and m taken from what is called builtins? *)
ViaB == \E l \in {Len(out), Len(out) - 1} : /\ l >= 3 /\ (l < Len(out) => out[Len(out)].t = "f")
                                            /\ out[l].s = ")" /\ out[l - 1] = N("builtins", "v") /\ out[l - 2].s = "("
Inherited == /\ Top.k = "I"
             /\ IF Top.n = "" THEN Write(<<>>, <<>>) /\ UNCHANGED scopes
                ELSE Write(<<N(Top.n, "f")>>, <<>>) /\ scopes' = AddDef(scopes, Top.s, Def(Top.n, Id, "from", ViaB))
             /\ UNCHANGED <<vars, sels, left>>
BDynamic == /\ Top.k = "B" /\ Top.n < MaxBinds /\ InB("dynamic") /\ (IF Top.s = 0 THEN TRUE ELSE scopes[Top.s].kind \in {"rec", "oldlet"})
            /\ Write(<<W("${")>>, <<E(Top.v), T("} ="), E(Top.v), T(";"), Again(Top)>>)
            /\ scopes' = (IF Top.s = 0 THEN scopes ELSE IF scopes[Top.s].kind = "rec" THEN scopes ELSE [scopes EXCEPT ![Top.s].arg = "dynamic"])
            /\ UNCHANGED <<vars, sels, left>>
(* Formals. *)
FName == /\ Top.k = "F" /\ Top.n < MaxBinds
         /\ \E n \in DefNames \ Top.d, d \in BOOLEAN :
              LET c == IF Top.n > 0 THEN <<W(",")>> ELSE <<>> IN
              /\ scopes' = AddDef(scopes, Top.s, Def(n, Id + Len(c), "formal", FALSE))
              /\ Write(c \o <<N(n, "d")>>, (IF d THEN <<T("?"), E(Top.s)>> ELSE <<>>) \o <<[Again(Top) EXCEPT !.d = @ \cup {n}]>>)
         /\ UNCHANGED <<vars, sels, left>>
FEnd == /\ Top.k = "F"
        /\ \/ Write(<<W("}")>>, <<>>) /\ UNCHANGED scopes
           \/ Write(<<W(IF Top.n > 0 THEN ", ... }" ELSE "... }")>>, <<>>) /\ UNCHANGED scopes
           \/ /\ In("at") /\ scopes[Top.s].arg = ""
              /\ \E n \in DefNames \ Top.d :
                   /\ scopes' = [scopes EXCEPT ![Top.s].arg = n, ![Top.s].defs = Append(@, Def(n, Id + 2, "atarg", FALSE))]
                   /\ Write(<<W("}"), W("@"), N(n, "d")>>, <<>>)
        /\ UNCHANGED <<vars, sels, left>>

Next == stack # <<>> /\
        IF Top.k = "M" THEN Mark ELSE UNCHANGED marks /\
        (\/ Emitted \/ ESimple \/ ELet \/ EWith \/ EFn \/ EFormals \/ EIf \/ EAssert \/ EApp \/ EOp \/ EHas
         \/ SVar \/ SLit \/ SParen \/ SList \/ SStr \/ SRec \/ SOldLet \/ SSet \/ SSelect \/ SBuiltin \/ Attr
         \/ BEnd \/ BPlain \/ BPath \/ BInherit \/ BInheritFrom \/ BInheritNone \/ BInheritBuiltins \/ Inherited \/ BDynamic
         \/ FName \/ FEnd)

(* -- resolution -- *)
DefsIn(sc, s, n) == {k \in DOMAIN sc[s].defs : sc[s].defs[k].n = n}
DefsOf(s, n) == DefsIn(scopes, s, n)
Base == Globals \cup Consts \cup {"builtins"}
RECURSIVE LookIn(_, _, _, _)   \* the name n in the scope e of the scopes sc; ws: with expressions passed
LookIn(sc, n, e, ws) ==
  IF e = 0 THEN IF n \in Base THEN [k |-> "builtin", id |-> 0, ws |-> <<>>]
                ELSE IF ws # <<>> THEN [k |-> "with", id |-> sc[ws[1]].id, ws |-> [j \in DOMAIN ws |-> sc[ws[j]].id]]
                ELSE [k |-> "undef", id |-> 0, ws |-> <<>>]
  ELSE IF DefsIn(sc, e, n) # {} THEN [k |-> "def", id |-> sc[e].defs[CHOOSE k \in DefsIn(sc, e, n) : TRUE].id, ws |-> <<>>]
  ELSE LookIn(sc, n, sc[e].par, IF sc[e].kind = "with" THEN Append(ws, e) ELSE ws)
Look(n, e, ws) == LookIn(scopes, n, e, ws)
Res(v) == Look(v.n, v.e, <<>>)
Global(n, e) == Look(n, e, <<>>).k = "builtin"
(* names of lexical scopes visible in e, with their binding *)
RECURSIVE Visible(_)
Visible(e) == IF e = 0 THEN {}
              ELSE LET own == {<<scopes[e].defs[k].n, scopes[e].defs[k].id>> : k \in DOMAIN scopes[e].defs}
                   IN own \cup {x \in Visible(scopes[e].par) : \A y \in own : y[1] # x[1]}

Done == stack = <<>>
Uses(id) == {v.id : v \in {vars[k] : k \in {k \in DOMAIN vars : Res(vars[k]).k = "def" /\ Res(vars[k]).id = id}}}
WithUsed(id) == \E k \in DOMAIN vars : \E j \in DOMAIN Res(vars[k]).ws : Res(vars[k]).ws[j] = id
AllDefs == UNION {{<<s, k>> : k \in DOMAIN scopes[s].defs} : s \in DOMAIN scopes}
D(q) == scopes[q[1]].defs[q[2]]
Kind(q) == LET s == scopes[q[1]] d == D(q) IN
           CASE s.kind = "let" -> "let" [] s.kind \in {"rec", "oldlet"} -> "rec" [] d.src = "arg" -> "arg" [] d.src = "atarg" -> "atarg"
             [] s.arg # "" -> "formalarg" [] OTHER -> "formal"
(* in the scope s, is `builtins` the global one (for its inherits)? *)
GB(s) == DefsOf(s, "builtins") = {} /\ Global("builtins", scopes[s].par)
Reports ==
     {<<"undefined", v.id>> : v \in {vars[k] : k \in {k \in DOMAIN vars : Res(vars[k]).k = "undef" /\ ~(vars[k].n \in Prefixed /\ Global("builtins", vars[k].e))}}}
  \cup {<<"needs-prefix", v.id>> : v \in {vars[k] : k \in {k \in DOMAIN vars : Res(vars[k]).k = "undef" /\ vars[k].n \in Prefixed /\ Global("builtins", vars[k].e)}}}
  \cup {<<CASE Kind(q) = "let" -> "unused-let" [] Kind(q) = "formal" -> "unused-formal" [] Kind(q) = "formalarg" -> "unused-formalarg" [] OTHER -> "unused-atarg", D(q).id>>
        : q \in {q \in AllDefs : Kind(q) \notin {"rec", "arg"} /\ Uses(D(q).id) = {}}}
  \cup {<<"extra-rec", scopes[s].id>> : s \in {s \in DOMAIN scopes : scopes[s].kind = "rec" /\ \A k \in DOMAIN scopes[s].defs : Uses(scopes[s].defs[k].id) = {}}}
  \cup {<<"extra-with", scopes[s].id>> : s \in {s \in DOMAIN scopes : scopes[s].kind = "with" /\ ~WithUsed(scopes[s].id)}}
  \cup {<<"removable-prefix", x.id>> : x \in {sels[k] : k \in {k \in DOMAIN sels : Global("builtins", sels[k].e) /\ sels[k].n \in Globals /\ Global(sels[k].n, sels[k].e)}}}
  \cup {<<"removable-prefix", D(q).id>> : q \in {q \in AllDefs : Kind(q) = "let" /\ D(q).viaB /\ GB(q[1]) /\ D(q).n \in Globals /\ Global(D(q).n, scopes[q[1]].par)}}
  \cup {<<"unknown", x.nid>> : x \in {sels[k] : k \in {k \in DOMAIN sels : Global("builtins", sels[k].e) /\ sels[k].n \notin Globals \cup Prefixed \cup Consts \cup {"builtins"}}}}
  \cup {<<"overridden", D(q).id>> : q \in {q \in AllDefs : D(q).n \in Globals /\ ~(D(q).viaB /\ GB(q[1]))}}
  \cup {<<"constant", D(q).id>> : q \in {q \in AllDefs : D(q).n \in Consts}}

(* Sanity of the resolution itself. *)
RECURSIVE Encloses(_, _)
Encloses(s, e) == e # 0 /\ (s = e \/ Encloses(s, scopes[e].par))
ResolutionSound == Done => \A k \in DOMAIN vars : LET r == Res(vars[k]) IN
  /\ r.k = "def" => \E q \in AllDefs : D(q).id = r.id /\ D(q).n = vars[k].n /\ Encloses(q[1], vars[k].e)
                     /\ ~\E q2 \in AllDefs : D(q2).n = vars[k].n /\ q2[1] # q[1] /\ Encloses(q2[1], vars[k].e) /\ Encloses(q[1], q2[1])
  /\ r.k = "undef" => ~\E q \in AllDefs : D(q).n = vars[k].n /\ Encloses(q[1], vars[k].e)
(* A definition is reported as unused exactly if it has no use. *)
UsedOnce == Done => \A q1, q2 \in AllDefs : (q1 # q2 /\ D(q1).id # D(q2).id) => Uses(D(q1).id) \cap Uses(D(q2).id) = {}
SeqOf(q) == [n |-> D(q).n, id |-> D(q).id, k |-> Kind(q), src |-> D(q).src, uses |-> Uses(D(q).id)]
Case == [out |-> out,
         vars |-> [k \in DOMAIN vars |-> [n |-> vars[k].n, id |-> vars[k].id, role |-> vars[k].role, r |-> Res(vars[k]), vis |-> Visible(vars[k].e)]],
         defs |-> {SeqOf(q) : q \in AllDefs}, rep |-> Reports]
Emit == (Done /\ (EmitAll \/ left = 0)) => PrintT("@@" \o ToJson(Case))
=============================================================================
