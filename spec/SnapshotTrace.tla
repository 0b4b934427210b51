--------------------------- MODULE SnapshotTrace ---------------------------
(* Are the answers of a recorded history allowed by Snapshot?  An event:      *)
(*   [e |-> "set", d, x]           a text was sent (0: closed)                *)
(*   [e |-> "ask", d, x]           request x was sent                         *)
(*   [e |-> "ans", d, x, cands]    its answer; it could be of the texts cands *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Histories == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES h, i, sent, from
vars == <<h, i, sent, from>>
H == Histories[h]
Ev == H.ev[i]
Set(s) == {s[k] : k \in DOMAIN s}
Init == h \in DOMAIN Histories /\ i = 1 /\ sent = [d \in Set(Histories[h].docs) |-> <<0>>] /\ from = [x \in {} |-> 0]
Sent == Ev.e = "set" /\ sent' = [sent EXCEPT ![Ev.d] = Append(@, Ev.x)] /\ UNCHANGED from
Ask == Ev.e = "ask" /\ from' = (Ev.x :> Len(sent[Ev.d])) @@ from /\ UNCHANGED sent
Window == {sent[Ev.d][v] : v \in from[Ev.x] .. Len(sent[Ev.d])}
Ans == Ev.e = "ans" /\ (Window \cap Set(Ev.cands) # {}) = TRUE /\ UNCHANGED <<sent, from>>
End == Ev.e = "end" /\ PrintT("@@" \o ToJson([id |-> H.id, ok |-> TRUE])) /\ UNCHANGED <<sent, from>>
Next == i <= Len(H.ev) /\ i' = i + 1 /\ UNCHANGED h /\ (Sent \/ Ask \/ Ans \/ End)
Stuck == (i <= Len(H.ev) /\ ~ENABLED Next) => PrintT("@@" \o ToJson([id |-> H.id, ok |-> FALSE, at |-> i, window |-> IF Ev.e = "ans" THEN Window ELSE {}]))
=============================================================================
