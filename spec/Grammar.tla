------------------------------ MODULE Grammar -----------------------------
(* The Nix expression grammar as a leftmost derivation (C06; its sentences
   are also the valid-program inputs of other checks).  A state is the text
   and tree written so far and the stack of symbols still to expand; each
   transition expands the leftmost nonterminal by one production.  Operator
   precedence is by stratification here (independent of Ops.tla's
   shift/reduce rule).                                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Budget,   \* sum of the costs of the productions used
          Start,    \* "E", or a smaller nonterminal
          Omit      \* productions (by name) left out

T(s) == [k |-> "t", s |-> s]  \* a token, separated from its neighbours
G(s) == [k |-> "g", s |-> s]  \* a piece of text glued to what follows
O(s) == [k |-> "o", s |-> s]  \* a piece of the tree
N(s) == [k |-> "n", s |-> s]  \* a nonterminal
P(n, c, items) == [n |-> n, c |-> c, items |-> items]

Var(x) == P("var_" \o x, 0, <<T(x), O(" " \o x)>>)

Bin(op, l, r) == P("bin" \o op, 1, <<O(" (" \o op), N(l), T(op), N(r), O(")")>>)
Up(n) == P("up", 0, <<N(n)>>)

Prods(nt) ==
  CASE nt = "E" -> {
         Up("Op0"),
         P("oldlet", 1, <<O(" (oldlet"), T("let"), T("{"), N("Binds"), T("}"), O(")")>>),
         P("lam", 1, <<O(" (fn"), T("x"), T(":"), O(" x"), N("E"), O(")")>>),
         P("lamf", 1, <<O(" (fn"), T("{"), O(" {"), N("Formals"), T("}"), O("}"), T(":"), N("E"), O(")")>>),
         P("lamfa", 1, <<O(" (fn"), T("{"), O(" y@{"), N("Formals"), T("}"), O("}"), T("@"), T("y"), T(":"), N("E"), O(")")>>),
         P("lamaf", 1, <<O(" (fn"), T("y"), T("@"), T("{"), O(" y@{"), N("Formals"), T("}"), O("}"), T(":"), N("E"), O(")")>>),
         P("assert", 1, <<O(" (assert"), T("assert"), N("E"), T(";"), N("E"), O(")")>>),
         P("with", 1, <<O(" (with"), T("with"), N("E"), T(";"), N("E"), O(")")>>),
         P("if", 1, <<O(" (if"), T("if"), N("E"), T("then"), N("E"), T("else"), N("E"), O(")")>>),
         P("let", 1, <<O(" (let"), T("let"), N("Binds"), T("in"), O(" in"), N("E"), O(")")>>)}
    [] nt = "Op0" -> {Up("Op2"), Bin("->", "Op3", "Op2")}
    [] nt = "Op2" -> {Up("Op3"), Bin("->", "Op3", "Op2")}
    [] nt = "Op3" -> {Up("Op4"), Bin("||", "Op3", "Op4")}
    [] nt = "Op4" -> {Up("Op5"), Bin("&&", "Op4", "Op5")}
    [] nt = "Op5" -> {Up("Op6"), Bin("==", "Op6", "Op6"), Bin("!=", "Op6", "Op6")}
    [] nt = "Op6" -> {Up("Op7"), Bin("<", "Op7", "Op7"), Bin(">=", "Op7", "Op7")}
    [] nt = "Op7" -> {Up("Op8"), Bin("//", "Op8", "Op7")}
    [] nt = "Op8" -> {Up("Op9"), P("not", 1, <<O(" (NOT"), T("!"), N("Op8"), O(")")>>)}
    [] nt = "Op9" -> {Up("Op10"), Bin("+", "Op9", "Op10"), Bin("-", "Op9", "Op10")}
    [] nt = "Op10" -> {Up("Op11"), Bin("*", "Op10", "Op11"), Bin("/", "Op10", "Op11")}
    [] nt = "Op11" -> {Up("Op12"), Bin("++", "Op12", "Op11")}
    [] nt = "Op12" -> {Up("Op13"), P("has", 1, <<O(" (?"), N("Op13"), T("?"), O(" "), N("Path"), O(")")>>)}
    [] nt = "Op13" -> {Up("App"), P("neg", 1, <<O(" (NEGATE"), T("-"), N("Op13"), O(")")>>)}
    [] nt = "App" -> {Up("Sel"),
         P("call1", 1, <<O(" (call"), N("Fn"), N("Sel"), O(")")>>),
         P("call2", 1, <<O(" (call"), N("Fn"), N("Sel"), N("Sel"), O(")")>>)}
    [] nt = "Fn" -> {Var("f"), P("fsel", 1, <<O(" (sel"), N("Fn0"), T("."), O(" "), N("Path"), O(")")>>),
         P("fparen", 1, <<O(" (paren"), T("("), N("E"), T(")"), O(")")>>),
         P("fattrs", 1, <<O(" (attrs"), T("{"), N("Binds"), T("}"), O(")")>>)}
    [] nt = "Fn0" -> {Var("g"), P("fparen", 1, <<O(" (paren"), T("("), N("E"), T(")"), O(")")>>)}
    [] nt = "Sel" -> {Up("Simple"),
         P("sel", 1, <<O(" (sel"), N("Simple"), T("."), O(" "), N("Path"), O(")")>>),
         P("selor", 1, <<O(" (selor"), N("Simple"), T("."), O(" "), N("Path"), T("or"), N("Sel"), O(")")>>)}
    [] nt = "Simple" -> {Var("a"), Var("b"),
         P("int", 0, <<T("7"), O(" 7")>>),
         P("str", 1, <<O(" (str"), G("\""), G("u"), N("Parts"), T("\""), O(")")>>),
         P("ind", 1, <<O(" (str"), G("''"), G(" u"), N("Parts"), T("''"), O(")")>>),
         P("path", 1, <<O(" (path)"), T("./p")>>),
         P("pathi", 1, <<O(" (path (itp"), G("./p${"), N("E"), G("}"), T("q"), O("))")>>),
         P("spath", 1, <<O(" <p>"), T("<p>")>>),
         P("paren", 1, <<O(" (paren"), T("("), N("E"), T(")"), O(")")>>),
         P("list", 1, <<O(" (list"), T("["), N("Elems"), T("]"), O(")")>>),
         P("attrs", 1, <<O(" (attrs"), T("{"), N("Binds"), T("}"), O(")")>>),
         P("rec", 1, <<O(" (rec"), T("rec"), T("{"), N("Binds"), T("}"), O(")")>>),
         P("oldlet_operand", 1, <<O(" (oldlet"), T("let"), T("{"), N("Binds"), T("}"), O(")")>>)}
    [] nt = "Parts" -> {P("nopart", 0, <<>>), P("frag", 1, <<G("v"), N("Parts")>>),
         P("itp", 1, <<O(" (itp"), G("${"), N("E"), G("}"), O(")"), N("Parts")>>)}
    [] nt = "Elems" -> {P("noelem", 0, <<>>), P("elem", 1, <<N("Sel"), N("Elems")>>)}
    [] nt = "Binds" -> {P("nobind", 0, <<>>),
         P("bind", 1, <<O(" (bind "), N("Path"), T("="), N("E"), T(";"), O(")"), N("Binds")>>),
         P("inh", 1, <<O(" (inherit"), T("inherit"), N("Names"), T(";"), O(")"), N("Binds")>>),
         P("inhf", 1, <<O(" (inherit("), T("inherit"), T("("), N("E"), T(")"), O(")"), N("Names"), T(";"), O(")"), N("Binds")>>)}
    [] nt = "Names" -> {P("noname", 0, <<>>), P("name", 1, <<T("n"), O(" n"), N("Names")>>),
         P("strname", 1, <<T("\"s\""), O(" (str)"), N("Names")>>)}
    [] nt = "Path" -> {Up("Attr"), P("path2", 1, <<N("Attr"), T("."), O("."), N("Path")>>)}
    [] nt = "Attr" -> {P("k", 0, <<T("k"), O("k")>>), P("or", 1, <<T("or"), O("or")>>),
         P("sk", 1, <<T("\"s\""), O("(str)")>>),
         P("dk", 1, <<G("${"), O("(itp"), N("E"), T("}"), O(")")>>),
         P("sdk", 1, <<G("\"${"), O("(str (itp"), N("E"), T("}\""), O("))")>>)}
    [] nt = "Formals" -> {P("noformal", 0, <<>>), P("ell", 0, <<T("..."), O("...")>>),
         P("formal", 1, <<N("Formal"), N("Formals2")>>)}
    [] nt = "Formals2" -> {P("endformal", 0, <<>>), P("trail", 0, <<T(",")>>),
         P("moreell", 0, <<T(","), T("..."), O(",...")>>),
         P("more", 1, <<T(","), O(","), N("Formal"), N("Formals2")>>)}
    [] nt = "Formal" -> {P("plain", 0, <<T("p"), O("p")>>), P("dflt", 1, <<T("p"), O("p?"), T("?"), N("E")>>)}

VARIABLES text, tree, stk, left, used
vars == <<text, tree, stk, left, used>>

(* Move finished symbols from the stack to the output. *)
RECURSIVE Flush(_, _, _)
Flush(tx, tr, s) ==
  IF s = <<>> \/ Head(s).k = "n" THEN <<tx, tr, s>>
  ELSE LET h == Head(s) IN
       Flush(IF h.k = "o" THEN tx ELSE IF h.k = "t" THEN Append(tx, h.s) ELSE tx \o <<h.s, "">>,
             IF h.k = "o" THEN tr \o h.s ELSE tr, Tail(s))

Init == /\ text = <<>> /\ tree = "" /\ stk = <<N(Start)>> /\ left = Budget /\ used = {}

Expand(p) ==
  /\ p.c <= left /\ p.n \notin Omit
  /\ LET f == Flush(text, tree, p.items \o Tail(stk)) IN
     text' = f[1] /\ tree' = f[2] /\ stk' = f[3]
  /\ left' = left - p.c
  /\ used' = used \cup {p.n}

Next == stk # <<>> /\ \E p \in Prods(Head(stk).s) : Expand(p)

(* Everything still pending is a grammar symbol, and every opened node of the
   tree will be closed: opened minus closed brackets equals what is pending. *)
RECURSIVE Count(_, _)
Count(s, ch) == IF s = "" THEN 0 ELSE (IF SubSeq(s, 1, 1) = ch THEN 1 ELSE 0) + Count(SubSeq(s, 2, Len(s)), ch)
RECURSIVE PendingClose(_)
PendingClose(s) == IF s = <<>> THEN 0
                   ELSE (IF Head(s).k = "o" THEN Count(Head(s).s, ")") ELSE 0) + PendingClose(Tail(s))
RECURSIVE PendingOpen(_)
PendingOpen(s) == IF s = <<>> THEN 0
                  ELSE (IF Head(s).k = "o" THEN Count(Head(s).s, "(") ELSE 0) + PendingOpen(Tail(s))
Balanced == stk = <<>> => Count(tree, "(") = Count(tree, ")")
TypeOK == stk = <<>> \/ Head(stk).k = "n"

Emit == stk = <<>> => PrintT("@@" \o ToJson([text |-> text, tree |-> tree, used |-> used]))
==========================================================================
