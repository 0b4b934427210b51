------------------------------ MODULE Workers ------------------------------
(* The server, its pool and an evaluator worker (C19).  Jobs of the pool call
   the worker and wait for the reply; the thread that reads from the worker runs
   the continuations; the worker may be slow, die, close its output, answer calls
   it was not asked, or never answer; the client may end the session at any time.

   Protocol: "current", or an earlier one in which something is missing, for
   which TLC has to find the behaviour that breaks the property:
     "forget"    calls pending at the end of the worker's output are forgotten
     "late"      a call made after the end of output is registered, too
     "patient"   the server waits for the worker to exit
     "careless"  the worker is not told to exit at all
     "unordered" the pool is waited for before the worker is stopped             *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Jobs, Protocol, Faults, MaxDup
VARIABLES job,      \* job -> "new" | "calling" | "waiting" | "done"
          table,    \* registered calls
          sent,     \* calls the worker has not read
          wire,     \* replies not read yet
          worker,   \* "up" | "stuck" | "gone"
          pipe,     \* is the worker's output open?
          reader,   \* "reading" | "draining" | "closed"
          srv,      \* "running" | "pooling" | "stopping" | "killing" | "joining" | "exited"
          grace, dups
vars == <<job, table, sent, wire, worker, pipe, reader, srv, grace, dups>>
Init == job = [j \in Jobs |-> "new"] /\ table = {} /\ sent = {} /\ wire = {} /\ worker = "up" /\ pipe = TRUE
        /\ reader = "reading" /\ srv = "running" /\ grace = FALSE /\ dups = 0

(* -- a job of the pool *)
Register(j) ==
  /\ job[j] = "new" /\ srv # "exited"
  /\ IF reader = "closed" /\ Protocol # "late"
     THEN job' = [job EXCEPT ![j] = "done"] /\ UNCHANGED table     \* fails at once
     ELSE job' = [job EXCEPT ![j] = "calling"] /\ table' = table \cup {j}
  /\ UNCHANGED <<sent, wire, worker, pipe, reader, srv, grace, dups>>
Write(j) ==
  /\ job[j] = "calling" /\ job' = [job EXCEPT ![j] = "waiting"]
  /\ sent' = IF worker = "gone" THEN sent ELSE sent \cup {j}       \* a broken pipe is no error
  /\ UNCHANGED <<table, wire, worker, pipe, reader, srv, grace, dups>>
(* a continuation may run before the job even starts to wait: what it waits for is a semaphore *)
Ran(js) == [j \in Jobs |-> IF j \in js THEN "done" ELSE job[j]]

(* -- the worker *)
Answer == \E j \in sent : /\ worker = "up" /\ pipe /\ sent' = sent \ {j} /\ wire' = wire \cup {j}
                          /\ UNCHANGED <<job, table, worker, pipe, reader, srv, grace, dups>>
Dup == \E j \in Jobs : /\ worker = "up" /\ pipe /\ dups < MaxDup /\ job[j] # "new" /\ dups' = dups + 1 /\ wire' = wire \cup {j}
                       /\ UNCHANGED <<job, table, sent, worker, pipe, reader, srv, grace>>
Die == worker # "gone" /\ "die" \in Faults /\ worker' = "gone" /\ pipe' = FALSE /\ sent' = {} /\ UNCHANGED <<job, table, wire, reader, srv, grace, dups>>
Stick == worker = "up" /\ "stuck" \in Faults /\ worker' = "stuck" /\ UNCHANGED <<job, table, sent, wire, pipe, reader, srv, grace, dups>>
Shut == worker = "up" /\ pipe /\ "hup" \in Faults /\ pipe' = FALSE /\ UNCHANGED <<job, table, sent, wire, worker, reader, srv, grace, dups>>
(* it reads what it is told to: the exit notification, or the end of its input *)
Leave == worker = "up" /\ (grace \/ srv = "exited") /\ worker' = "gone" /\ pipe' = FALSE /\ sent' = {} /\ UNCHANGED <<job, table, wire, reader, srv, grace, dups>>

(* -- the thread reading from the worker *)
Handle == \E j \in wire : /\ reader = "reading" /\ wire' = wire \ {j} /\ table' = table \ {j}
                          /\ job' = IF j \in table THEN Ran({j}) ELSE job
                          /\ UNCHANGED <<sent, worker, pipe, reader, srv, grace, dups>>
Hangup == /\ reader = "reading" /\ ((~pipe /\ wire = {}) \/ grace)
          /\ reader' = "closed"
          /\ IF Protocol = "forget" THEN UNCHANGED <<table, job>> ELSE table' = {} /\ job' = Ran(table)
          /\ UNCHANGED <<sent, wire, worker, pipe, srv, grace, dups>>

(* -- the end of the session *)
Pool == \A j \in Jobs : job[j] = "done"
End == srv = "running" /\ srv' = (IF Protocol = "unordered" THEN "pooling" ELSE "stopping") /\ UNCHANGED <<job, table, sent, wire, worker, pipe, reader, grace, dups>>
Tell == srv = "stopping" /\ grace = FALSE /\ grace' = (Protocol # "careless") /\ srv' = "killing" /\ UNCHANGED <<job, table, sent, wire, worker, pipe, reader, dups>>
Reap == srv = "killing" /\ (worker = "gone" \/ Protocol = "careless") /\ srv' = "joining" /\ UNCHANGED <<job, table, sent, wire, worker, pipe, reader, grace, dups>>
Kill == srv = "killing" /\ worker # "gone" /\ Protocol # "patient" /\ worker' = "gone" /\ pipe' = FALSE /\ sent' = {} /\ UNCHANGED <<job, table, wire, reader, srv, grace, dups>>
Join == srv = "joining" /\ Pool /\ reader = "closed" /\ srv' = "exited" /\ UNCHANGED <<job, table, sent, wire, worker, pipe, reader, grace, dups>>
Late == srv = "pooling" /\ Pool /\ srv' = "stopping" /\ UNCHANGED <<job, table, sent, wire, worker, pipe, reader, grace, dups>>

Next == (\E j \in Jobs : Register(j) \/ Write(j)) \/ Answer \/ Dup \/ Die \/ Stick \/ Shut \/ Leave \/ Handle \/ Hangup \/ End \/ Tell \/ Reap \/ Kill \/ Join \/ Late
Fair == /\ \A j \in Jobs : WF_vars(Register(j)) /\ WF_vars(Write(j))
        /\ WF_vars(Answer) /\ WF_vars(Leave) /\ WF_vars(Handle) /\ WF_vars(Hangup) /\ WF_vars(Tell) /\ WF_vars(Reap) /\ WF_vars(Kill) /\ WF_vars(Join) /\ WF_vars(Late)
Spec == Init /\ [][Next]_vars /\ Fair

TypeOK == table \subseteq Jobs /\ sent \subseteq Jobs /\ wire \subseteq Jobs
(* a job is never released without a reason, and the table holds exactly the calls that wait *)
Sound == \A j \in Jobs : job[j] = "waiting" => (j \in table \/ reader = "closed")
NoOrphan == srv = "exited" => worker = "gone"
(* every call of a worker that does not hang is answered, and the session ends whatever the worker does *)
Answered == \A j \in Jobs : (job[j] = "calling") ~> (job[j] = "done" \/ worker = "stuck")
Ends == (srv # "running") ~> (srv = "exited")
=============================================================================
