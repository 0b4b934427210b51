------------------------------ MODULE Inherit ------------------------------
(* Several threads start processes connected by pipes.  A new process gets   *)
(* every descriptor the server has open then; when it runs its command it    *)
(* keeps those that were not marked to be closed when it was forked.  A      *)
(* command reading its input until the end waits until nobody holds the      *)
(* writing end of its pipe.                                                  *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Procs,
          First,  \* First[p]: processes that p waits for after reading its input
          How     \* "locked": no fork between creating and marking; "late": marked after creation;
                  \* "never": never marked
VARIABLES pc,     \* of the thread starting p
          open,   \* pipes (named by their process) whose writing end the server holds
          mark,   \* ... and has marked
          held,   \* held[p]: the writing ends p holds, whether marked
          run,    \* "no" / "forked" / "runs" / "done"
          lock
vars == <<pc, open, mark, held, run, lock>>
Init == /\ pc = [p \in Procs |-> "create"] /\ open = {} /\ mark = {}
        /\ held = [p \in Procs |-> {}] /\ run = [p \in Procs |-> "no"] /\ lock = {}
Create(p) == /\ pc[p] = "create" /\ (How = "locked" => lock = {})
             /\ open' = open \cup {p} /\ pc' = [pc EXCEPT ![p] = IF How = "never" THEN "fork" ELSE "mark"]
             /\ lock' = {p} /\ UNCHANGED <<mark, held, run>>
Mark(p) == /\ pc[p] = "mark" /\ mark' = mark \cup {p} /\ pc' = [pc EXCEPT ![p] = "fork"]
           /\ UNCHANGED <<open, held, run, lock>>
Fork(p) == /\ pc[p] = "fork" /\ pc' = [pc EXCEPT ![p] = "feed"]
           /\ held' = [held EXCEPT ![p] = {[of |-> q, marked |-> (q \in mark)] : q \in open \ {p}}]  \* it closes its own
           /\ run' = [run EXCEPT ![p] = "forked"] /\ lock' = {} /\ UNCHANGED <<open, mark>>
Exec(p) == /\ run[p] = "forked" /\ run' = [run EXCEPT ![p] = "runs"]
           /\ held' = [held EXCEPT ![p] = {h \in @ : ~h.marked}] /\ UNCHANGED <<pc, open, mark, lock>>
\* the text is written: the server closes its end
Feed(p) == /\ pc[p] = "feed" /\ pc' = [pc EXCEPT ![p] = "wait"] /\ open' = open \ {p}
           /\ UNCHANGED <<mark, held, run, lock>>
SeesEnd(p) == p \notin open /\ \A q \in Procs : run[q] \in {"forked", "runs"} => \A h \in held[q] : h.of # p
Done(p) == /\ run[p] = "runs" /\ SeesEnd(p) /\ \A q \in First[p] : run[q] = "done"
           /\ run' = [run EXCEPT ![p] = "done"] /\ UNCHANGED <<pc, open, mark, held, lock>>
Next == \E p \in Procs : Create(p) \/ Mark(p) \/ Fork(p) \/ Exec(p) \/ Feed(p) \/ Done(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Create(p) \/ Mark(p) \/ Fork(p)) /\ WF_vars(Exec(p)) /\ WF_vars(Feed(p)) /\ WF_vars(Done(p))
\* a running command holds nobody else's pipe
Alone == \A p \in Procs : run[p] = "runs" => held[p] = {}
AllDone == <>(\A p \in Procs : run[p] = "done")
=============================================================================
