---------------------------- MODULE SnapshotGen ----------------------------
(* Histories of a client for C31; the driver decides about the times between. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Docs, Texts, Kinds,    \* numbers of texts and of requests of the driver
          MinOps, MaxOps
VARIABLES open, what, doc, hist, want, done
vars == <<open, what, doc, hist, want, done>>
Init == open = {} /\ what = "" /\ doc = "" /\ hist = <<>> /\ want \in MinOps .. MaxOps /\ done = FALSE
Op(o, d, x) == [o |-> o, d |-> d, x |-> x]
Choose == what = "" /\ Len(hist) < want /\ (\E w \in {"text", "edit", "ask", "ask2", "ask3", "wait", "close"} : what' = w) /\ UNCHANGED <<open, doc, hist, want, done>>
Which == what # "" /\ doc = "" /\ doc' \in Docs /\ UNCHANGED <<open, what, hist, want, done>>
Ops == CASE what \in {"text", "edit"} -> {Op(IF doc \in open THEN what ELSE "open", doc, t) : t \in Texts}
         [] what = "close" -> {Op(IF doc \in open THEN "close" ELSE "ask", doc, 0)}
         [] what = "wait" -> {Op("wait", doc, t) : t \in 0..3}
         [] OTHER -> {Op("ask", doc, k) : k \in Kinds}
Do == /\ what # "" /\ doc # ""
      /\ \E op \in Ops :
           /\ hist' = Append(hist, op)
           /\ open' = IF op.o = "open" THEN open \cup {doc} ELSE IF op.o = "close" THEN open \ {doc} ELSE open
      /\ what' = "" /\ doc' = "" /\ UNCHANGED <<want, done>>
End == what = "" /\ Len(hist) = want /\ ~done /\ done' = TRUE /\ UNCHANGED <<open, what, doc, hist, want>>
Next == Choose \/ Which \/ Do \/ End
Emit == done => PrintT("@@" \o ToJson(hist))
=============================================================================
