------------------------------ MODULE StrValue ------------------------------
(* What string literals denote (C07, C15).  A text is a sequence of characters
   between the quotes; a value is a sequence of elements <<"c", <<char>>>> and
   <<"i", interpolation>>.  Indented strings are read as Nix's lexer reads them
   and stripped as its parser's stripIndentation does.                       *)
EXTENDS Naturals, Sequences, TLC
CONSTANT Itps      \* interpolations that may occur, as sequences of characters

Ch(t, i) == IF i <= Len(t) THEN t[i] ELSE "EOF"
Unescape(ch) == CASE ch = "n" -> "\n" [] ch = "r" -> "\r" [] ch = "t" -> "\t" [] OTHER -> ch
C(x) == <<"c", <<x>>>>
BADV == << <<"bad", <<>>>> >>
ItpsAt(t, i) == {x \in Itps : i + Len(x) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(x) - 1) = x}
ItpAt(t, i) == LET m == ItpsAt(t, i) IN IF m = {} THEN <<>> ELSE CHOOSE x \in m : \A y \in m : Len(y) <= Len(x)

(* tokens [k, x, at]; k: "c" a character that counts for indentation, "e" another piece of text, "i" an interpolation *)
Tk(k, x, i) == [k |-> k, x |-> x, at |-> i]
RECURSIVE FlatT(_, _, _)
FlatT(ts, i, acc) ==
  IF i > Len(ts) THEN acc
  ELSE IF ts[i].k = "i" THEN FlatT(ts, i + 1, Append(acc, <<"i", ts[i].x>>))
  ELSE FlatT(ts, i + 1, acc \o [k \in 1 .. Len(ts[i].x) |-> C(ts[i].x[k])])
BADT == <<Tk("bad", <<>>, 0)>>
Flat(ts) == IF ts = BADT THEN BADV ELSE FlatT(ts, 1, <<>>)

(* -- double-quoted -- *)
RECURSIVE DQT(_, _, _)
DQT(t, i, acc) ==
  IF i > Len(t) THEN acc
  ELSE CASE t[i] = "\"" -> BADT
         [] t[i] = "\\" -> IF i = Len(t) THEN BADT ELSE DQT(t, i + 2, Append(acc, Tk("e", <<Unescape(t[i + 1])>>, i)))
         [] t[i] = "$" /\ Ch(t, i + 1) = "{" ->
              LET x == ItpAt(t, i) IN IF x = <<>> THEN BADT ELSE DQT(t, i + Len(x), Append(acc, Tk("i", x, i)))
         \* line ends are normalised
         [] t[i] = "\r" -> DQT(t, IF Ch(t, i + 1) = "\n" THEN i + 2 ELSE i + 1, Append(acc, Tk("e", <<"\n">>, i)))
         [] t[i] = "$" /\ Ch(t, i + 1) \notin {"\"", "\\", "\r", "EOF"} -> DQT(t, i + 2, Append(acc, Tk("e", <<"$", t[i + 1]>>, i)))
         [] OTHER -> DQT(t, i + 1, Append(acc, Tk("e", <<t[i]>>, i)))
DQV(t) == Flat(DQT(t, 1, <<>>))

(* -- indented -- *)
RECURSIVE INDT(_, _, _)
INDT(t, i, acc) ==
  IF i > Len(t) THEN acc
  ELSE CASE t[i] = "'" /\ Ch(t, i + 1) = "'" ->
              (CASE Ch(t, i + 2) = "$" -> INDT(t, i + 3, Append(acc, Tk("e", <<"$">>, i)))
                 [] Ch(t, i + 2) = "'" -> INDT(t, i + 3, Append(acc, Tk("e", <<"'", "'">>, i)))
                 [] Ch(t, i + 2) = "\\" -> IF i + 2 = Len(t) THEN BADT ELSE INDT(t, i + 4, Append(acc, Tk("e", <<Unescape(t[i + 3])>>, i)))
                 [] OTHER -> BADT)
         \* a single quote just before the closing quotes would be an escape
         [] t[i] = "'" /\ i = Len(t) -> BADT
         [] t[i] = "'" /\ Ch(t, i + 1) = "$" -> INDT(t, i + 1, Append(acc, Tk("e", <<"'">>, i)))
         [] t[i] = "'" -> INDT(t, i + 2, acc \o <<Tk("c", <<"'">>, i), Tk("c", <<t[i + 1]>>, i)>>)
         [] t[i] = "$" /\ Ch(t, i + 1) = "{" ->
              LET x == ItpAt(t, i) IN IF x = <<>> THEN BADT ELSE INDT(t, i + Len(x), Append(acc, Tk("i", x, i)))
         [] t[i] = "$" /\ Ch(t, i + 1) \in {"'", "EOF"} -> INDT(t, i + 1, Append(acc, Tk("e", <<"$">>, i)))
         [] t[i] = "$" -> INDT(t, i + 2, acc \o <<Tk("c", <<"$">>, i), Tk("c", <<t[i + 1]>>, i)>>)
         [] OTHER -> INDT(t, i + 1, Append(acc, Tk("c", <<t[i]>>, i)))

(* '' and the blanks up to the end of its line are one token *)
RECURSIVE Blanks(_, _)
Blanks(t, i) == IF Ch(t, i) = " " THEN Blanks(t, i + 1) ELSE i
Opening(t) == LET e == Blanks(t, 1) IN IF Ch(t, e) = "\n" THEN e + 1 ELSE 1
Toks(t) == INDT(t, Opening(t), <<>>)

Inf == 1000000
RECURSIVE MinInd(_, _, _, _, _)
MinInd(ts, i, sol, cur, m) ==
  IF i > Len(ts) THEN m
  ELSE LET less == IF cur < m THEN cur ELSE m IN
       IF ts[i].k # "c" THEN MinInd(ts, i + 1, FALSE, cur, IF sol THEN less ELSE m)
       ELSE LET ch == ts[i].x[1] IN
            IF sol THEN CASE ch = " " -> MinInd(ts, i + 1, TRUE, cur + 1, m)
                          [] ch = "\n" -> MinInd(ts, i + 1, TRUE, 0, m)
                          [] OTHER -> MinInd(ts, i + 1, FALSE, cur, less)
            ELSE IF ch = "\n" THEN MinInd(ts, i + 1, TRUE, 0, m) ELSE MinInd(ts, i + 1, FALSE, cur, m)

(* characters of one token; st: [sol, drop] *)
RECURSIVE Trim(_, _, _, _, _)
Trim(x, i, m, st, out) ==
  IF i > Len(x) THEN [st |-> st, out |-> out]
  ELSE LET ch == x[i] IN
       IF st.sol THEN CASE ch = " " -> Trim(x, i + 1, m, [st EXCEPT !.drop = @ + 1], IF st.drop >= m THEN Append(out, C(ch)) ELSE out)
                        [] ch = "\n" -> Trim(x, i + 1, m, [st EXCEPT !.drop = 0], Append(out, C(ch)))
                        [] OTHER -> Trim(x, i + 1, m, [sol |-> FALSE, drop |-> 0], Append(out, C(ch)))
       ELSE Trim(x, i + 1, m, [st EXCEPT !.sol = ch = "\n"], Append(out, C(ch)))
RECURSIVE Strip(_, _, _, _, _)
Strip(ts, i, m, st, out) ==
  IF i > Len(ts) THEN [st |-> st, out |-> out]
  ELSE IF ts[i].k = "i" THEN Strip(ts, i + 1, m, [sol |-> FALSE, drop |-> 0], Append(out, <<"i", ts[i].x>>))
  ELSE LET r == Trim(ts[i].x, 1, m, st, <<>>) IN Strip(ts, i + 1, m, r.st, out \o r.out)

(* where the last token starts: characters that count for indentation are one token *)
RECURSIVE LastTok(_, _)
LastTok(ts, i) == IF i > 1 /\ ts[i].k = "c" /\ ts[i - 1].k = "c" THEN LastTok(ts, i - 1) ELSE i
(* the last line is dropped if it consists of blanks *)
RECURSIVE BlankEnd(_, _)
BlankEnd(out, i) == IF i = 0 THEN 0 ELSE IF out[i] = C("\n") THEN i ELSE IF out[i] = C(" ") THEN BlankEnd(out, i - 1) ELSE 0
DropLast(out) == LET e == BlankEnd(out, Len(out)) IN IF e = 0 THEN out ELSE SubSeq(out, 1, e)

INDV(t) ==
  LET ts == Toks(t) IN
  IF ts = BADT THEN BADV
  ELSE IF ts = <<>> THEN <<>>
  ELSE LET m == MinInd(ts, 1, TRUE, 0, Inf)
           k == LastTok(ts, Len(ts))
           a == Strip(SubSeq(ts, 1, k - 1), 1, m, [sol |-> TRUE, drop |-> 0], <<>>)
           b == Strip(SubSeq(ts, k, Len(ts)), 1, m, a.st, <<>>)
       IN a.out \o DropLast(b.out)
ValueOf(q, t) == IF q = "dq" THEN DQV(t) ELSE INDV(t)

(* -- writing a value -- *)
RECURSIVE EscDq(_, _)
EscDq(v, i) ==
  IF i > Len(v) THEN <<>>
  ELSE LET rest == EscDq(v, i + 1) IN
       IF v[i][1] = "i" THEN v[i][2] \o rest
       ELSE CASE v[i][2][1] = "\"" -> <<"\\", "\"">> \o rest
              [] v[i][2][1] = "\\" -> <<"\\", "\\">> \o rest
              [] v[i][2][1] = "\n" -> <<"\\", "n">> \o rest
              [] v[i][2][1] = "\r" -> <<"\\", "r">> \o rest
              [] v[i][2][1] = "\t" -> <<"\\", "t">> \o rest
              [] v[i][2][1] = "$" -> (IF rest # <<>> /\ rest[1] \in {"{", "$"} THEN <<"\\", "$">> ELSE <<"$">>) \o rest
              [] OTHER -> v[i][2] \o rest
ToDq(v) == EscDq(v, 1)

RECURSIVE EscInd(_, _, _)
EscInd(v, i, P) ==      \* P: blanks to be protected
  IF i > Len(v) THEN <<>>
  ELSE LET rest == EscInd(v, i + 1, P) IN
       IF v[i][1] = "i" THEN v[i][2] \o rest
       ELSE IF i \in P THEN <<"'", "'", "\\", " ">> \o rest
       ELSE CASE v[i][2][1] = "'" ->
                   (IF i < Len(v) /\ v[i + 1] = C("'") THEN <<"'", "'", "'">> \o EscInd(v, i + 2, P)
                    ELSE IF rest = <<>> \/ rest[1] = "'" THEN <<"'", "'", "\\", "'">> \o rest
                    ELSE <<"'">> \o rest)
              [] v[i][2][1] = "$" ->
                   (IF i < Len(v) /\ (v[i + 1][1] = "i" \/ v[i + 1] = C("{")) THEN <<"'", "'", "$">> ELSE <<"$">>) \o rest
              [] OTHER -> v[i][2] \o rest
LineStart(v, i) == i = 1 \/ v[i - 1] = C("\n")
RECURSIVE TailBlank(_, _)
TailBlank(v, i) == IF i = 0 THEN FALSE ELSE v[i] = C("\n") \/ (v[i] = C(" ") /\ TailBlank(v, i - 1))
ToInd(v) ==
  LET n == Len(v)
      last == IF n > 0 /\ v[n] = C(" ") /\ TailBlank(v, n) THEN {n} ELSE {}
      lead == {i \in 1 .. n : LineStart(v, i) /\ v[i] = C(" ")}
      flush == \E i \in 1 .. n : LineStart(v, i) /\ v[i] \notin {C(" "), C("\n")}
      first == IF lead = {} \/ flush THEN {} ELSE {CHOOSE i \in lead : \A j \in lead : i <= j}
      body == EscInd(v, 1, last \cup first)
  IN (IF Opening(body) > 1 THEN <<"\n">> ELSE <<>>) \o body

(* rewriting is possible for every value *)
Rewritable(v) == v = BADV \/ (DQV(ToDq(v)) = v /\ INDV(ToInd(v)) = v)
=============================================================================
