----------------------------- MODULE PublishGen ----------------------------
(* Histories of a client for C18: each operation says whether the client first
   waits until the server is silent.                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Docs, Texts, Sups,   \* numbers of texts and of settings of the driver
          Bad,                 \* kinds of replies that change nothing
          MinOps, MaxOps
VARIABLES open, hist, want, done
vars == <<open, hist, want, done>>
Init == open = {} /\ hist = <<>> /\ want \in MinOps .. MaxOps /\ done = FALSE
Log(o) == \E w \in BOOLEAN : hist' = Append(hist, [o EXCEPT !.w = w]) /\ UNCHANGED <<want, done>>
Op(op, d, x) == [op |-> op, d |-> d, x |-> x, w |-> FALSE]
Go == Len(hist) < want
Open == Go /\ \E d \in Docs \ open, t \in Texts : open' = open \cup {d} /\ Log(Op("open", d, t))
Change == Go /\ \E d \in open, t \in Texts : UNCHANGED open /\ Log(Op("change", d, t))
Close == Go /\ \E d \in open : open' = open \ {d} /\ Log(Op("close", d, 0))
Conf == Go /\ \E s \in Sups : UNCHANGED open /\ Log(Op("conf", "", s))
BadConf == Go /\ \E s \in Bad : UNCHANGED open /\ Log(Op("bad", "", s))
End == ~Go /\ ~done /\ done' = TRUE /\ UNCHANGED <<open, hist, want>>
Next == Open \/ Change \/ Close \/ Conf \/ BadConf \/ End
Emit == done => PrintT("@@" \o ToJson(hist))
=============================================================================
