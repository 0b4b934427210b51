------------------------------- MODULE Repair ------------------------------
(* Sentences of the grammar with one fault whose repair is forced: applying the
   fix offered for it has to give the sentence back (C13).                    *)
EXTENDS Grammar
VARIABLES bad     \* the fault: [kind, fix, text], or ""
rvars == <<vars, bad>>
None == [kind |-> "", fix |-> "", text |-> <<>>]
RInit == Init /\ bad = None
Cut(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Ins(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Where == 1 .. Len(text)
Nxt(i) == IF i < Len(text) THEN text[i + 1] ELSE ""
Prv(i) == IF i > 1 THEN text[i - 1] ELSE ""
(* tokens no expression contains before its end: whatever lacks must come before them *)
Closing(t) == {")", "]", "}", ";", "in", "then", "else"} \ {t}
Names == {"a", "b", "f", "g", "k", "p", "x", "y"}
Fault(k, f, t) == bad' = [kind |-> k, fix |-> f, text |-> t] /\ UNCHANGED vars
Drop == \E i \in Where :
  /\ \/ text[i] \in {")", "]", "}"} /\ Nxt(i) \in Closing(text[i])
     \/ text[i] = ";" /\ Nxt(i) \in {"}", "in", "inherit"}
     \/ text[i] = ";" /\ Nxt(i) \in {"if", "let", "assert", "with"}
     \/ text[i] \in {"then", "else"} /\ Nxt(i) \in {"if", "let", "assert", "with"}
     \/ text[i] = "in" /\ Nxt(i) \in {"if", "let", "assert", "with", "(", "[", "7"}
     \/ text[i] = "=" /\ Nxt(i) \in Names \cup {"(", "[", "if", "let", "7"} /\ Prv(i) \in Names
  /\ Fault("drop", "insert " \o text[i], Cut(text, i))
Dot == \E i \in Where : /\ text[i] = "." /\ Fault("dot", "remove extra .", Ins(text, i, "."))
DotEnd == \E i \in Where : text[i] = "=" /\ Prv(i) \in Names /\ Fault("dot", "remove extra .", Ins(text, i, "."))
Or == \E i \in Where : text[i] = "||" /\ Fault("or", "replace 'or' with '||'", [text EXCEPT ![i] = "or"])
AtSign == \E i \in Where : text[i] = ":" /\ Prv(i) = "x" /\ Prv(i - 1) # "@" /\ Fault("at", "remove extra @", Ins(text, i, "@"))
Junk == \E i \in Where, j \in {")", "]", "then"} :
           text[i] = ";" /\ Nxt(i) \in {"}", "in", "inherit"} /\ Fault("junk", "remove unexpected text", Ins(text, i + 1, j))
RNext == IF stk # <<>> THEN Next /\ UNCHANGED bad
         ELSE bad = None /\ (Drop \/ Dot \/ DotEnd \/ Or \/ AtSign \/ Junk)
(* One token more, one less, or one changed. *)
OneFault == bad # None => /\ Len(bad.text) <= Len(text) + 1 /\ Len(text) <= Len(bad.text) + 1
                          /\ bad.text # text
REmit == bad # None => PrintT("@@" \o ToJson([text |-> text, bad |-> bad.text, kind |-> bad.kind, fix |-> bad.fix]))
=============================================================================
