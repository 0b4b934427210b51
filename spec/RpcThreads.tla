----------------------------- MODULE RpcThreads ----------------------------
(* Calls made by several threads while the main thread handles replies (C03).
   Each call takes an id and registers its continuation in one critical section,
   then sends the request.  Split: the two are separate, for which TLC has to
   find the schedule that breaks the property.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Calls, Max, Split
VARIABLES top, table, pc, sent, wire, ran
vars == <<top, table, pc, sent, wire, ran>>
(* table: <<id, owner>> pairs; owner: <<thread, number of call>>; wire: replies on their way *)
Err == <<"error", 0>>
Init == top = 1 /\ table = {} /\ pc = [t \in Threads |-> [at |-> "idle", n |-> 0, id |-> 0, over |-> {}]]
        /\ sent = {} /\ wire = {} /\ ran = <<>>
Owner(t) == <<t, pc[t].n>>
Oldest(tb) == {x \in tb : \A y \in tb : x[1] <= y[1]}
Alloc(t) ==
  /\ pc[t].at = "idle" /\ pc[t].n < Calls
  /\ IF Split
     THEN pc' = [pc EXCEPT ![t] = [at |-> "bump", n |-> pc[t].n + 1, id |-> top, over |-> {}]] /\ UNCHANGED <<top, table>>
     ELSE LET tb == table \cup {<<top, <<t, pc[t].n + 1>>>>}
              over == IF Cardinality(tb) > Max THEN Oldest(tb) ELSE {}
          IN top' = top + 1 /\ table' = tb \ over
             /\ pc' = [pc EXCEPT ![t] = [at |-> "fail", n |-> pc[t].n + 1, id |-> top, over |-> over]]
  /\ UNCHANGED <<sent, wire, ran>>
Bump(t) ==
  /\ pc[t].at = "bump" /\ top' = pc[t].id + 1
  /\ LET tb == {x \in table : x[1] # pc[t].id} \cup {<<pc[t].id, Owner(t)>>}
         over == IF Cardinality(tb) > Max THEN Oldest(tb) ELSE {}
     IN table' = tb \ over /\ pc' = [pc EXCEPT ![t].at = "fail", ![t].over = over]
  /\ UNCHANGED <<sent, wire, ran>>
GiveUp(t) ==
  /\ pc[t].at = "fail" /\ pc' = [pc EXCEPT ![t].at = "send", ![t].over = {}]
  /\ ran' = IF pc[t].over = {} THEN ran ELSE Append(ran, <<(CHOOSE x \in pc[t].over : TRUE)[2], Err>>)
  /\ UNCHANGED <<top, table, sent, wire>>
SendCall(t) ==
  /\ pc[t].at = "send" /\ pc' = [pc EXCEPT ![t].at = "idle"]
  /\ sent' = sent \cup {<<pc[t].id, Owner(t)>>} /\ wire' = wire \cup {<<pc[t].id, Owner(t)>>}
  /\ UNCHANGED <<top, table, ran>>
(* the client's reply names the call it was sent for *)
Handle == \E r \in wire :
  /\ wire' = wire \ {r}
  /\ LET es == {x \in table : x[1] = r[1]} IN
       /\ table' = table \ es
       /\ ran' = IF es = {} THEN ran ELSE Append(ran, <<(CHOOSE x \in es : TRUE)[2], r[2]>>)
  /\ UNCHANGED <<top, pc, sent>>
Next == (\E t \in Threads : Alloc(t) \/ Bump(t) \/ GiveUp(t) \/ SendCall(t)) \/ Handle
Quiet == wire = {} /\ \A t \in Threads : pc[t].at = "idle" /\ pc[t].n = Calls
UniqueIds == \A a, b \in sent : a[1] = b[1] => a = b
Once == \A a, b \in DOMAIN ran : a # b => ran[a][1] # ran[b][1]
Own == \A k \in DOMAIN ran : ran[k][2] = ran[k][1] \/ ran[k][2] = Err
All == Quiet => Len(ran) = Cardinality(Threads) * Calls /\ table = {}
=============================================================================
