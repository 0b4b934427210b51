------------------------------- MODULE DocEdit -----------------------------
(* Every single change of every small text (C01). *)
EXTENDS Utf, FiniteSets, Json
CONSTANTS Alphabet, MaxLen, Insert, MaxChar
VARIABLES text, p, q
D == INSTANCE DocSync WITH Docs <- {"d"}, Texts <- {}, Inserts <- {}, MaxOps <- 0, MaxEdits <- 0, MinOps <- 0, Wild <- {}, Errors <- TRUE,
     cl <- 0, sv <- 0, sync <- 0, ver <- 0, hist <- <<>>, cur <- 0
Lines(t) == CountNL(t, Len(t))
Init == text = <<>> /\ p = <<-2, 0>> /\ q = <<-2, 0>>
Next == \/ p[1] = -2 /\ Len(text) < MaxLen /\ \E c \in Alphabet : text' = Append(text, c) /\ UNCHANGED <<p, q>>
        \/ p[1] = -2 /\ \E l \in 0..Lines(text) + 1, c \in -1..MaxChar : p' = <<l, c>> /\ UNCHANGED <<text, q>>
        \/ p[1] # -2 /\ q[1] = -2 /\ \E l \in 0..Lines(text) + 1, c \in 0..MaxChar : q' = <<l, c>> /\ UNCHANGED <<text, p>>
U == U16(text)
Len16 == IF D!ClientOk(U, [r |-> <<p, q>>]) THEN Off16(U, q) - Off16(U, p) ELSE 0
Lens == {-1, Len16, Len16 + 1, Len(U8(text))}
R(len) == D!Try(text, p, q, len, Insert)
(* without the accommodation, the server accepts exactly what the client means *)
Agree == q[1] # -2 => \A len \in Lens :
   LET e == [r |-> <<p, q>>, len |-> len, t |-> Insert] IN
   (~D!Infers(U8(text), p) /\ ~D!Infers(U8(text), q)) =>
     IF D!ClientOk(U, e) /\ (len = -1 \/ len = Len16) THEN R(len) # D!NONE /\ Decode8(R(len)) = Decode16(D!ClientApply(U, e)) ELSE R(len) = D!NONE
RECURSIVE SetSeq(_)
SetSeq(x) == IF x = {} THEN <<>> ELSE LET e == CHOOSE e \in x : TRUE IN <<e>> \o SetSeq(x \ {e})
Emit == q[1] # -2 => PrintT("@@" \o ToJson([t |-> Str(text), r |-> <<p[1], p[2], q[1], q[2]>>,
   res |-> LET s == SetSeq(Lens) IN [i \in 1..Len(s) |-> <<s[i], IF R(s[i]) = D!NONE THEN [ok |-> FALSE, t |-> ""] ELSE [ok |-> TRUE, t |-> Str(Decode8(R(s[i])))]>>]]))
=============================================================================
