---------------------------- MODULE CompleteText ----------------------------
(* Validates what completion inserts (C20).  Each record has the format
   (plain text or LSP snippet), the text, and what it has to say: an attribute
   name, and for options the value that is assigned.                         *)
EXTENDS StrValue, Json, IOUtils
CONSTANTS Letters, Digits, Keywords
Recs == ndJsonDeserialize(IOEnv.RECORDS)
VARIABLE l
Init == l = 0
Next == l = 0 /\ l' \in 1 .. Len(Recs)

(* LSP snippets: \ escapes $ } and \; ${n:text} is a placeholder, $n a tab stop *)
BADS == <<"bad snippet">>
RECURSIVE Expand(_, _, _, _)
Number(t, i) == Ch(t, i) \in Digits
RECURSIVE Past(_, _)
Past(t, i) == IF Number(t, i) THEN Past(t, i + 1) ELSE i
Expand(t, i, open, acc) ==
  IF i > Len(t) THEN (IF open = 0 THEN acc ELSE BADS)
  ELSE CASE t[i] = "\\" /\ Ch(t, i + 1) \in {"$", "}", "\\"} -> Expand(t, i + 2, open, Append(acc, t[i + 1]))
         [] t[i] = "}" /\ open > 0 -> Expand(t, i + 1, open - 1, acc)
         [] t[i] = "$" /\ Number(t, i + 1) -> Expand(t, Past(t, i + 1), open, acc)
         [] t[i] = "$" /\ Ch(t, i + 1) = "{" ->
              LET j == Past(t, i + 2) IN
              CASE ~Number(t, i + 2) -> BADS         \* a variable of the editor
                [] Ch(t, j) = ":" -> Expand(t, j + 1, open + 1, acc)
                [] Ch(t, j) = "}" -> Expand(t, j + 1, open, acc)
                [] OTHER -> BADS
         [] t[i] = "$" /\ Ch(t, i + 1) \in Letters -> BADS
         [] OTHER -> Expand(t, i + 1, open, Append(acc, t[i]))
Inserted(r) == IF r.snippet THEN Expand(r.t, 1, 0, <<>>) ELSE r.t

(* The name a key denotes *)
Identifier(t) == /\ t # <<>> /\ (t[1] \in Letters \/ t[1] = "_")
                 /\ \A i \in DOMAIN t : t[i] \in Letters \cup Digits \cup {"_", "'", "-"}
                 /\ t \notin Keywords
Denotes(key, name) == IF Len(key) >= 2 /\ key[1] = "\"" /\ key[Len(key)] = "\""
                      THEN DQV(SubSeq(key, 2, Len(key) - 1)) = [i \in DOMAIN name |-> C(name[i])]
                      ELSE Identifier(key) /\ key = name
Assign(v) == <<" ", "=", " ">> \o v \o <<";">>
Right(r) == LET t == Inserted(r) IN
            IF ~r.assign THEN Denotes(t, r.name)
            ELSE LET a == Assign(r.value)  n == Len(t) - Len(a) IN
                 n > 0 /\ SubSeq(t, n + 1, Len(t)) = a /\ Denotes(SubSeq(t, 1, n), r.name)
Check == l = 0 \/ (IF Right(Recs[l]) THEN TRUE ELSE PrintT("@@" \o ToJson([l |-> l, got |-> Inserted(Recs[l])])))
All == TLCGet("distinct") = Len(Recs) + 1
=============================================================================
