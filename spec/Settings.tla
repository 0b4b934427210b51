------------------------------ MODULE Settings -----------------------------
(* How configurations take effect.  Each one the client replies becomes a     *)
(* job; jobs run concurrently.  A configuration names a formatting command    *)
(* and what some workers evaluate; those evaluate in the order of being told, *)
(* and the user sees a progress for each evaluation.                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Workers,   \* what may be named; the first exist from the start
          Running,   \* workers that exist from the start
          MaxConfs, MaxDeaths,
          Mode       \* "current"; "unordered": jobs overtaking each other are not noticed;
                     \* "unlocked": workers are told outside of the lock; "relaunch": each
                     \* configuration launches its workers; "forgetful": who waits for a
                     \* worker that dies is not told
VARIABLES confs,     \* what the replied configurations name
          jobs, lock, applied,
          cfg,       \* the configuration in effect, 0: the default
          launched, dead, queue, evals,
          begun, ended
vars == <<confs, jobs, lock, applied, cfg, launched, dead, queue, evals, begun, ended>>
Init == /\ confs = <<>> /\ jobs = <<>> /\ lock = 0 /\ applied = 0 /\ cfg = 0
        /\ launched = [w \in Workers |-> IF w \in Running THEN 1 ELSE 0] /\ dead = {}
        /\ queue = [w \in Workers |-> <<>>] /\ evals = [w \in Workers |-> <<>>]
        /\ begun = {} /\ ended = {}
Reply == /\ Len(confs) < MaxConfs
         /\ \E names \in SUBSET Workers : confs' = Append(confs, names) /\ jobs' = Append(jobs, [pc |-> "posted", todo |-> names])
         /\ UNCHANGED <<lock, applied, cfg, launched, dead, queue, evals, begun, ended>>
Start(j) == /\ jobs[j].pc = "posted" /\ lock = 0
            /\ IF j < applied /\ Mode # "unordered"
               THEN jobs' = [jobs EXCEPT ![j].pc = "done"] /\ UNCHANGED <<lock, applied, cfg>>
               ELSE /\ jobs' = [jobs EXCEPT ![j].pc = "tell"]
                    /\ applied' = j /\ cfg' = j /\ lock' = IF Mode = "unlocked" THEN 0 ELSE j
            /\ UNCHANGED <<confs, launched, dead, queue, evals, begun, ended>>
Tell(j) == /\ jobs[j].pc = "tell"
           /\ \E w \in jobs[j].todo :
                /\ jobs' = [jobs EXCEPT ![j].todo = @ \ {w}]
                /\ launched' = IF launched[w] = 0 \/ Mode = "relaunch" THEN [launched EXCEPT ![w] = @ + 1] ELSE launched
                /\ begun' = begun \cup {<<j, w>>}
                /\ IF w \in dead THEN ended' = (IF Mode = "forgetful" THEN ended ELSE ended \cup {<<j, w>>}) /\ UNCHANGED queue
                   ELSE queue' = [queue EXCEPT ![w] = Append(@, j)] /\ UNCHANGED ended
           /\ UNCHANGED <<confs, lock, applied, cfg, dead, evals>>
Finish(j) == /\ jobs[j].pc = "tell" /\ jobs[j].todo = {}
             /\ jobs' = [jobs EXCEPT ![j].pc = "done"] /\ lock' = IF lock = j THEN 0 ELSE lock
             /\ UNCHANGED <<confs, applied, cfg, launched, dead, queue, evals, begun, ended>>
Evaluate(w) == /\ queue[w] # <<>> /\ w \notin dead
               /\ queue' = [queue EXCEPT ![w] = SubSeq(@, 2, Len(@))]
               /\ evals' = [evals EXCEPT ![w] = Append(@, queue[w][1])]
               /\ ended' = ended \cup {<<queue[w][1], w>>}
               /\ UNCHANGED <<confs, jobs, lock, applied, cfg, launched, dead, begun>>
Die(w) == /\ launched[w] # 0 /\ w \notin dead /\ Cardinality(dead) < MaxDeaths
          /\ dead' = dead \cup {w} /\ queue' = [queue EXCEPT ![w] = <<>>]
          /\ ended' = IF Mode = "forgetful" THEN ended ELSE ended \cup {<<queue[w][i], w>> : i \in 1..Len(queue[w])}
          /\ UNCHANGED <<confs, jobs, lock, applied, cfg, launched, evals, begun>>
Server == (\E j \in DOMAIN jobs : Start(j) \/ Tell(j) \/ Finish(j)) \/ (\E w \in Workers : Evaluate(w))
Next == Reply \/ Server \/ (\E w \in Workers : Die(w))

Quiet == (\A j \in DOMAIN jobs : jobs[j].pc = "done") /\ \A w \in Workers : queue[w] = <<>>
Last(s) == s[Len(s)]
Naming(w) == {k \in DOMAIN confs : w \in confs[k]}
Latest(ks) == CHOOSE k \in ks : \A x \in ks : x <= k
\* the latest configuration is in effect
InEffect == Quiet => cfg = Len(confs)
\* every worker has last evaluated what the latest configuration naming it says
Evaluated == Quiet => \A w \in Workers \ dead : Naming(w) # {} =>
                 IF evals[w] = <<>> THEN Latest(Naming(w)) # Len(confs)
                 ELSE Last(evals[w]) >= (IF w \in confs[Len(confs)] THEN Len(confs) ELSE 0)
Forward == \A w \in Workers : \A i, k \in 1..Len(evals[w]) : i < k => evals[w][i] < evals[w][k]
OneEach == \A w \in Workers : launched[w] <= 1
\* a configuration takes effect as a whole
Whole == Quiet => \A k \in DOMAIN confs : \A w \in confs[k] \ dead, v \in confs[k] \ dead :
             (\E i \in 1..Len(evals[w]) : evals[w][i] = k) = (\E i \in 1..Len(evals[v]) : evals[v][i] = k)
Reported == ended \subseteq begun /\ (Quiet => ended = begun)
NotStuck == ~Quiet => ENABLED Server
=============================================================================
