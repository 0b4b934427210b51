------------------------------ MODULE TreeWalk -----------------------------
(* What a well-formed tree is (C05), as the walks over it: a walk enters a
   node only inside its parent and after the previous sibling, leaves it
   before its parent, and visits located diagnostics inside the text.
   Validates recorded walks of trees returned by the real parser: a walk that
   cannot take its next step is rejected.                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Walks == ndJsonDeserialize(IOEnv.WALKS)
(* A walk: [id, n, nl, ev]; nl: the offsets of the newlines; an event is
   <<"E", l, r, lLine, lCol, rLine, rCol>>, <<"L">> or
   <<"D", l, r, lLine, lCol, rLine, rCol>>.                                 *)

VARIABLES w,      \* which walk
          i,      \* next event
          stack,  \* <<[l, r, last]>>: open nodes; last: end of the latest child
          bad
vars == <<w, i, stack, bad>>

W == Walks[w]
Init == /\ w \in DOMAIN Walks /\ i = 1 /\ bad = FALSE
        /\ stack = <<[l |-> 0, r |-> Walks[w].n, last |-> 0]>>

Line(o) == Cardinality({k \in DOMAIN W.nl : W.nl[k] < o})
Col(o) == LET b == Line(o) IN IF b = 0 THEN o ELSE o - W.nl[b] - 1
Located(e) == /\ e[2] <= e[3] /\ e[3] <= W.n
              /\ e[4] = Line(e[2]) /\ e[5] = Col(e[2])
              /\ e[6] = Line(e[3]) /\ e[7] = Col(e[3])

Top == stack[Len(stack)]
Ev == W.ev[i]
CanEnter == /\ Ev[1] = "E" /\ Located(Ev)
            /\ Top.l <= Ev[2] /\ Ev[3] <= Top.r
            /\ Top.last <= Ev[2]
CanLeave == Ev[1] = "L" /\ Len(stack) > 1
CanDiag == Ev[1] = "D" /\ Located(Ev)

Enter == /\ CanEnter
         /\ stack' = Append([stack EXCEPT ![Len(stack)].last = Ev[3]], [l |-> Ev[2], r |-> Ev[3], last |-> Ev[2]])
         /\ i' = i + 1 /\ UNCHANGED <<w, bad>>
Leave == CanLeave /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ i' = i + 1 /\ UNCHANGED <<w, bad>>
Diag == CanDiag /\ i' = i + 1 /\ UNCHANGED <<w, stack, bad>>
Reject == /\ ~CanEnter /\ ~CanLeave /\ ~CanDiag
          /\ PrintT("@@" \o ToJson([id |-> W.id, at |-> i, ev |-> Ev, parent |-> Top]))
          /\ bad' = TRUE /\ i' = Len(W.ev) + 1 /\ UNCHANGED <<w, stack>>
Next == i <= Len(W.ev) /\ (Enter \/ Leave \/ Diag \/ Reject)

(* Every walk that is not rejected ends where it began. *)
Complete == (i > Len(W.ev) /\ ~bad) => Len(stack) = 1
Nested == \A k \in 2 .. Len(stack) : stack[k-1].l <= stack[k].l /\ stack[k].r <= stack[k-1].r
=============================================================================
