------------------------------- MODULE StrLex ------------------------------
(* The contents of string literals (C07): which characters are escapes, where
   interpolations start, and what the literal denotes.  A content is a
   sequence of pieces; only contents that leave the literal open until the
   closing quote added by the driver are cases.                             *)
EXTENDS StrValue, Json
CONSTANTS Pieces,    \* pieces, each a sequence of characters
          MaxLen, MinLen,
          Indented   \* '' ... '' instead of " ... "
VARIABLES seq, text
vars == <<seq, text>>

(* Without the indentation stripped, as the tree has it. *)
Tokens == IF Indented THEN INDT(text, 1, <<>>) ELSE DQT(text, 1, <<>>)
Elems == Flat(Tokens)
Value == ValueOf(IF Indented THEN "ind" ELSE "dq", text)

RECURSIVE Chars(_, _)
Chars(x, i) == IF i > Len(x) THEN "" ELSE x[i] \o Chars(x, i + 1)
RECURSIVE Join(_, _, _)
Join(ts, i, acc) ==
  IF i > Len(ts) THEN acc
  ELSE IF ts[i].k = "i" THEN Join(ts, i + 1, Append(acc, <<"i", ts[i].at>>))
  ELSE IF acc # <<>> /\ acc[Len(acc)][1] = "s" THEN Join(ts, i + 1, [acc EXCEPT ![Len(acc)] = <<"s", @[2] \o Chars(ts[i].x, 1)>>])
  ELSE Join(ts, i + 1, Append(acc, <<"s", Chars(ts[i].x, 1)>>))

Init == seq = <<>> /\ text = <<>>
Next == Len(seq) < MaxLen /\ \E p \in Pieces : seq' = Append(seq, p) /\ text' = text \o p

(* Either style can be written in the other one. *)
Rewrites == Rewritable(Value)
(* Stripping takes away blanks only *)
Solid(v) == SelectSeq(v, LAMBDA x : x # C(" ") /\ x # C("\n"))
StripsBlanks == Elems = BADV \/ Solid(Elems) = Solid(Value)
Emit == (Len(seq) >= MinLen /\ Elems # BADV) => PrintT("@@" \o ToJson([text |-> text, parts |-> Join(Tokens, 1, <<>>), val |-> Value]))
=============================================================================
