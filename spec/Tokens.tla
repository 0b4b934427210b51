------------------------------- MODULE Tokens -------------------------------
EXTENDS Denote
(* Concrete syntax, as tokens *)
RECURSIVE TE(_), TN(_), TP(_), TB(_), TL(_), Commas(_)
Quoted == {"b c", "in", ""}
TN(n) == IF ~IsStr(n) THEN <<"${">> \o TE(n.c[1]) \o <<"}">> ELSE IF n.n \in Quoted \/ n.s # <<>> THEN <<"\"" \o n.n \o "\"">> ELSE <<n.n>>
TP(p) == TN(p[1]) \o (IF Len(p) = 1 THEN <<>> ELSE <<".">> \o TP(Tail(p)))
TB(bs) == IF bs = <<>> THEN <<>>
          ELSE LET q == Head(bs) IN
            (CASE q.v.k = "inh" -> <<"inherit">> \o TN(q.p[1])
               [] q.v.k = "from" -> <<"inherit", "(">> \o TE(q.v.c[1]) \o <<")">> \o TN(q.p[1])
               [] OTHER -> TP(q.p) \o <<"=">> \o TE(q.v)) \o <<";">> \o TB(Tail(bs))
Par(t) == <<"(">> \o t \o <<")">>
(* what binds weaker than an operand is *)
Loose(e) == e.k \in {"with", "let", "fn"}
TL(es) == IF es = <<>> THEN <<>> ELSE (IF Loose(Head(es)) THEN Par(TE(Head(es))) ELSE TE(Head(es))) \o TL(Tail(es))
Commas(s) == IF Len(s) < 2 THEN s ELSE <<s[1], ",">> \o Commas(Tail(s))
TE(e) == CASE e.k = "var" -> <<e.n>>
           [] e.k = "set" -> (IF e.r THEN <<"rec">> ELSE <<>>) \o <<"{">> \o TB(e.b) \o <<"}">>
           [] e.k = "sel" -> TE(e.c[1]) \o <<".">> \o TP(Tail(e.c))
           [] e.k = "with" -> <<"with">> \o TE(e.c[1]) \o <<";">> \o TE(e.c[2])
           [] e.k = "let" -> <<"let">> \o TB(e.c[1].b) \o <<"in">> \o TE(e.c[2])
           [] e.k = "fn" -> (IF e.r THEN <<"{">> \o Commas(e.s) \o <<"}">> ELSE <<e.n>>) \o <<":">> \o TE(e.c[1])
           [] e.n = "or" -> Par(TE(e.c[1]) \o <<".">> \o TP(SubSeq(e.c, 3, Len(e.c))) \o <<"or">> \o TE(e.c[2]))
           [] e.n = "list" -> <<"[">> \o TL(e.c) \o <<"]">>
           [] e.n = "app" -> Par(TE(e.c[1]) \o TE(e.c[2]))
           [] OTHER -> <<e.n>>
=============================================================================
