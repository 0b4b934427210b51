------------------------------ MODULE Writers ------------------------------
(* Several threads writing messages to one stream (C04).  Locked: under a lock,
   as the server does; otherwise TLC has to find the torn message.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Threads, Messages, Parts, Locked
VARIABLES pc, lock, wire
vars == <<pc, lock, wire>>
Init == pc = [t \in Threads |-> [n |-> 1, part |-> 0]] /\ lock = "free" /\ wire = <<>>
Take(t) == /\ pc[t].n <= Messages /\ pc[t].part = 0 /\ (Locked => lock = "free")
           /\ lock' = (IF Locked THEN t ELSE lock) /\ pc' = [pc EXCEPT ![t].part = 1] /\ UNCHANGED wire
Put(t) == /\ pc[t].part > 0 /\ wire' = Append(wire, <<t, pc[t].n, pc[t].part>>)
          /\ IF pc[t].part = Parts THEN pc' = [pc EXCEPT ![t] = [n |-> pc[t].n + 1, part |-> 0]] /\ lock' = (IF Locked THEN "free" ELSE lock)
             ELSE pc' = [pc EXCEPT ![t].part = @ + 1] /\ UNCHANGED lock
Next == \E t \in Threads : Take(t) \/ Put(t)
OneAtATime == \A k \in 1 .. Len(wire) - 1 :
  wire[k][3] < Parts => wire[k + 1] = <<wire[k][1], wire[k][2], wire[k][3] + 1>>
InOrder == \A a, b \in 1 .. Len(wire) : (a < b /\ wire[a][1] = wire[b][1]) => wire[a][2] < wire[b][2] \/ (wire[a][2] = wire[b][2] /\ wire[a][3] < wire[b][3])
All == (\A t \in Threads : pc[t].n > Messages) => Len(wire) = Cardinality(Threads) * Messages * Parts
=============================================================================
