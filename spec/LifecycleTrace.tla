-------------------------- MODULE LifecycleTrace ---------------------------
(* What a client may observe in a session (C19).  Validates recorded sessions;
   an event is one of
     [e |-> "req", id]                 a request was sent
     [e |-> "rep", id, k]              a reply was received: k = "result", "error",
                                       "both" or "neither"
     [e |-> "wait", id]                the client waits for the reply: by then it has come
     [e |-> "probe", ok]               a document known to be fine was asked about again:
                                       are the answers the ones of a fresh server?
     [e |-> "shutdown", id]            shutdown was requested
     [e |-> "exit"], [e |-> "eof"]     the end of the session
     [e |-> "status", s]               the process ended ("hang": it did not)
     [e |-> "left", n]                 processes of the session that still exist   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES h, i, pending, down, ended, status
vars == <<h, i, pending, down, ended, status>>
H == Sessions[h]
Ev == H.ev[i]
Init == h \in DOMAIN Sessions /\ i = 1 /\ pending = {} /\ down = FALSE /\ ended = "no" /\ status = "running"
Req == /\ Ev.e \in {"req", "shutdown"} /\ ended = "no" /\ Ev.id \notin pending
       /\ pending' = pending \cup {Ev.id} /\ down' = (down \/ Ev.e = "shutdown") /\ UNCHANGED <<ended, status>>
(* one reply to each request: a result or an error, never after the process has ended *)
Rep == /\ Ev.e = "rep" /\ Ev.id \in pending /\ Ev.k \in {"result", "error"} /\ status = "running"
       /\ pending' = pending \ {Ev.id} /\ UNCHANGED <<down, ended, status>>
Wait == Ev.e = "wait" /\ Ev.id \notin pending /\ UNCHANGED <<pending, down, ended, status>>
Probe == Ev.e = "probe" /\ Ev.ok /\ UNCHANGED <<pending, down, ended, status>>
End == Ev.e \in {"exit", "eof"} /\ ended' = (IF ended = "no" THEN Ev.e ELSE ended) /\ UNCHANGED <<pending, down, status>>
(* the process ends when told to, and only then *)
Expected(s) == IF ~down THEN s \notin {0} ELSE ended = "exit" => s = 0
Status == Ev.e = "status" /\ ended # "no" /\ status = "running" /\ Ev.s \in 0 .. 127 /\ Expected(Ev.s) /\ status' = "ended" /\ UNCHANGED <<pending, down, ended>>
Left == Ev.e = "left" /\ status = "ended" /\ Ev.n = 0 /\ PrintT("@@" \o ToJson([id |-> H.id, ok |-> TRUE])) /\ UNCHANGED <<pending, down, ended, status>>
Next == i <= Len(H.ev) /\ i' = i + 1 /\ UNCHANGED h /\ (Req \/ Rep \/ Wait \/ Probe \/ End \/ Status \/ Left)
Stuck == (i <= Len(H.ev) /\ ~ENABLED Next) => PrintT("@@" \o ToJson([id |-> H.id, ok |-> FALSE, at |-> i, pending |-> pending, down |-> down, ended |-> ended]))
=============================================================================
