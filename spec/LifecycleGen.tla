--------------------------- MODULE LifecycleGen ----------------------------
(* What a client may do (C19): documents of any kind are opened, changed, closed;
   anything is requested about anything, with any parameters, waiting for the
   reply or not; the session ends in one of several ways.  Kinds are numbers or
   names that the driver knows.                                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS Docs, Kinds, Methods, Params, Confs, Ends, Workers, MinOps, MaxOps
VARIABLES open, hist, want, done
vars == <<open, hist, want, done>>
Init == open = {} /\ hist = <<>> /\ want \in MinOps .. MaxOps /\ done = FALSE
R(n, set) == IF Cardinality(set) <= n THEN set ELSE RandomSubset(n, set)
Op(op, d, x, p) == [op |-> op, d |-> d, x |-> x, p |-> p, w |-> FALSE, n |-> 0]
Log(o) == \E w \in BOOLEAN : \E n \in R(2, 0 .. 40) : hist' = Append(hist, [o EXCEPT !.w = w, !.n = n]) /\ UNCHANGED <<want, done>>
Go == Len(hist) < want
Open == Go /\ \E d \in R(1, Docs \ open), t \in R(2, Kinds) : open' = open \cup {d} /\ Log(Op("open", d, t, ""))
Change == Go /\ \E d \in R(1, open), t \in R(1, Kinds) : UNCHANGED open /\ Log(Op("change", d, t, ""))
Close == Go /\ \E d \in R(1, open) : open' = open \ {d} /\ Log(Op("close", d, "", ""))
(* mostly of open documents, with decent parameters *)
Ask == Go /\ open # {} /\ \E d \in R(1, open), m \in R(3, Methods) : UNCHANGED open /\ Log(Op("ask", d, m, "ok"))
Odd == Go /\ \E d \in R(1, Docs), m \in R(1, Methods), p \in R(2, Params) : UNCHANGED open /\ Log(Op("ask", d, m, p))
All == Go /\ open # {} /\ \E d \in R(1, open) : UNCHANGED open /\ Log(Op("all", d, "", "ok"))
Conf == Go /\ \E c \in R(1, Confs) : UNCHANGED open /\ Log(Op("conf", "", c, ""))
Again == Go /\ UNCHANGED open /\ Log(Op("initialize", "", "", ""))
End == ~Go /\ ~done /\ done' = TRUE /\ UNCHANGED <<open, want>>
       /\ \E e \in R(1, Ends), k \in R(1, Workers) : hist' = hist \o <<Op("worker", "", k, ""), Op("end", "", e, "")>>
Next == Open \/ Change \/ Close \/ Ask \/ Odd \/ All \/ Conf \/ Again \/ End
Emit == done => PrintT("@@" \o ToJson(hist))
=============================================================================
