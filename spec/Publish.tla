------------------------------ MODULE Publish ------------------------------
(* How diagnostics get published (C18).  The client opens, changes and closes
   documents and replies to configuration requests.  The server's main thread
   handles its messages in order; each reply becomes a job of the thread pool,
   where jobs run concurrently.  Publishing reads the suppressed set once per
   diagnostic.  TLC checks that whatever the schedule only allowed diagnostics
   are published, that the last ones are the final ones, and that no schedule is
   stuck.  Protocol names the locking used; the ones other than "current" are
   the server's former ones, for which TLC has to find the schedule that breaks
   the property.                                                             *)
EXTENDS Diags, TLC
CONSTANTS Docs, Kinds, MaxOps, MaxReplies, Protocol
VARIABLES texts,     \* texts[d]: those the client has sent
          settings,  \* of the replies the client has sent
          n,         \* operations of the client
          inbox,     \* messages not handled yet
          main,      \* what the main thread is doing
          jobs,      \* jobs[j]: what the job of the j-th reply is doing
          received,  \* replies received by the server
          tus,       \* documents the server has
          sup,       \* the suppressed set
          applied,   \* number of the reply it is from
          cfgLock, tuLock,
          out,       \* what was published last of each document
          pub        \* the latest publication
vars == <<texts, settings, n, inbox, main, jobs, received, tus, sup, applied, cfgLock, tuLock, out, pub>>
NoDoc == <<0, {}>>
Quiet == [d |-> "none", t |-> NoDoc, shown |-> {}, from |-> 0]

Init == /\ texts = [d \in Docs |-> <<NoDoc>>] /\ settings = <<{}>> /\ n = 0 /\ inbox = <<>>
        /\ main = [pc |-> "idle"] /\ jobs = <<>> /\ received = 1 /\ tus = [d \in Docs |-> NoDoc]
        /\ sup = {} /\ applied = 1 /\ cfgLock = "free" /\ tuLock = "free"
        /\ out = [d \in Docs |-> [v |-> 0, shown |-> {}, hidden |-> {}]] /\ pub = Quiet

Latest(d) == texts[d][Len(texts[d])]
IsOpen(d) == Latest(d)[1] # 0 /\ ~("closed" \in Latest(d)[2])
(* a closed document: no kinds of diagnostics at all *)
Shows(t) == t[2] \ {"closed"}

----------------------------------------------------------------------------
(* The client *)
Text(d) == \E ks \in SUBSET Kinds :
  /\ n < MaxOps /\ n' = n + 1
  /\ texts' = [texts EXCEPT ![d] = Append(@, <<n + 1, ks>>)]
  /\ inbox' = Append(inbox, <<"text", d, <<n + 1, ks>>>>)
  /\ UNCHANGED <<settings, main, jobs, received, tus, sup, applied, cfgLock, tuLock, out, pub>>
Close(d) ==
  /\ n < MaxOps /\ n' = n + 1 /\ IsOpen(d)
  /\ texts' = [texts EXCEPT ![d] = Append(@, <<n + 1, {"closed"}>>)]
  /\ inbox' = Append(inbox, <<"close", d, <<n + 1, {"closed"}>>>>)
  /\ UNCHANGED <<settings, main, jobs, received, tus, sup, applied, cfgLock, tuLock, out, pub>>
Reply == \E s \in SUBSET Kinds :
  /\ n < MaxOps /\ n' = n + 1 /\ Len(settings) <= MaxReplies
  /\ settings' = Append(settings, s)
  /\ inbox' = Append(inbox, <<"reply", Len(settings) + 1, s>>)
  /\ UNCHANGED <<texts, main, jobs, received, tus, sup, applied, cfgLock, tuLock, out, pub>>

----------------------------------------------------------------------------
(* Publishing, diagnostic by diagnostic *)
Loop(t) == [t |-> t, todo |-> Shows(t), shown |-> {}]
Judge(l) == \E k \in l.todo : [l EXCEPT !.todo = @ \ {k}, !.shown = IF k \in sup THEN @ ELSE @ \cup {k}]
Send(d, l) == /\ out' = [out EXCEPT ![d] = [v |-> l.t[1], shown |-> l.shown, hidden |-> Shows(l.t) \ l.shown]]
              /\ pub' = [d |-> d, t |-> <<l.t[1], Shows(l.t)>>, shown |-> l.shown, from |-> out[d].v]

(* The main thread *)
Take ==
  /\ main.pc = "idle" /\ inbox # <<>> /\ inbox' = Tail(inbox)
  /\ LET m == Head(inbox) IN
       IF m[1] = "reply"
       THEN /\ received' = received + 1
            /\ jobs' = Append(jobs, [pc |-> "posted", seq |-> received + 1, s |-> m[3]])
            /\ UNCHANGED main
       ELSE /\ main' = [pc |-> IF Protocol = "outside" /\ m[1] = "text" THEN "publish" ELSE "lock", d |-> m[2], l |-> Loop(m[3])]
            /\ UNCHANGED <<jobs, received>>
  /\ UNCHANGED <<texts, settings, n, tus, sup, applied, cfgLock, tuLock, out, pub>>
Same == UNCHANGED <<texts, settings, n, inbox, received>>
MainLock ==
  /\ main.pc = "lock" /\ tuLock = "free" /\ tuLock' = "main"
  /\ main' = [main EXCEPT !.pc = IF Protocol = "outside" /\ "closed" \notin main.l.t[2] THEN "insert" ELSE "publish"]
  /\ UNCHANGED <<jobs, tus, sup, applied, cfgLock, out, pub>> /\ Same
MainJudge ==
  /\ main.pc = "publish" /\ \E k \in main.l.todo : main' = [main EXCEPT !.l = [@ EXCEPT !.todo = @ \ {k}, !.shown = IF k \in sup THEN @ ELSE @ \cup {k}]]
  /\ UNCHANGED <<jobs, tus, sup, applied, cfgLock, tuLock, out, pub>> /\ Same
MainSend ==
  /\ main.pc = "publish" /\ main.l.todo = {} /\ Send(main.d, main.l)
  /\ main' = [main EXCEPT !.pc = IF Protocol = "outside" /\ "closed" \notin main.l.t[2] THEN "lock" ELSE "insert"]
  /\ UNCHANGED <<jobs, tus, sup, applied, cfgLock, tuLock>> /\ Same
MainInsert ==
  /\ main.pc = "insert" /\ tus' = [tus EXCEPT ![main.d] = IF "closed" \in main.l.t[2] THEN NoDoc ELSE main.l.t]
  /\ tuLock' = "free" /\ main' = [pc |-> "idle"]
  /\ UNCHANGED <<jobs, sup, applied, cfgLock, out, pub>> /\ Same

(* The job of a reply *)
Job(j, x) == jobs' = [jobs EXCEPT ![j] = x]
JobConfig(j) ==
  /\ jobs[j].pc = "posted" /\ cfgLock = "free"
  /\ IF jobs[j].seq < applied /\ Protocol # "unordered"
     THEN Job(j, [pc |-> "done"]) /\ UNCHANGED <<applied, cfgLock>>
     ELSE cfgLock' = "job" /\ applied' = jobs[j].seq /\ Job(j, [jobs[j] EXCEPT !.pc = "update"])
  /\ UNCHANGED <<main, tus, sup, tuLock, out, pub>> /\ Same
JobUpdate(j) ==
  /\ jobs[j].pc = "update" /\ sup' = jobs[j].s /\ Job(j, [jobs[j] EXCEPT !.pc = "lock"])
  /\ UNCHANGED <<main, tus, applied, cfgLock, tuLock, out, pub>> /\ Same
JobLock(j) ==
  /\ jobs[j].pc = "lock" /\ tuLock = "free" /\ tuLock' = "job"
  /\ Job(j, [pc |-> "next", docs |-> {d \in Docs : tus[d] # NoDoc}])
  /\ UNCHANGED <<main, tus, sup, applied, cfgLock, out, pub>> /\ Same
JobNext(j) ==
  /\ jobs[j].pc = "next"
  /\ IF jobs[j].docs = {} THEN Job(j, [pc |-> "done"]) /\ tuLock' = "free" /\ cfgLock' = "free"
     ELSE (\E d \in jobs[j].docs : Job(j, [pc |-> "publish", docs |-> jobs[j].docs \ {d}, d |-> d, l |-> Loop(tus[d])])) /\ UNCHANGED <<tuLock, cfgLock>>
  /\ UNCHANGED <<main, tus, sup, applied, out, pub>> /\ Same
JobJudge(j) ==
  /\ jobs[j].pc = "publish"
  /\ \E k \in jobs[j].l.todo : Job(j, [jobs[j] EXCEPT !.l = [@ EXCEPT !.todo = @ \ {k}, !.shown = IF k \in sup THEN @ ELSE @ \cup {k}]])
  /\ UNCHANGED <<main, tus, sup, applied, cfgLock, tuLock, out, pub>> /\ Same
JobSend(j) ==
  /\ jobs[j].pc = "publish" /\ jobs[j].l.todo = {} /\ Send(jobs[j].d, jobs[j].l)
  /\ Job(j, [pc |-> "next", docs |-> jobs[j].docs])
  /\ UNCHANGED <<main, tus, sup, applied, cfgLock, tuLock>> /\ Same

Server == \/ Take \/ MainLock \/ MainJudge \/ MainSend \/ MainInsert
          \/ \E j \in DOMAIN jobs : JobConfig(j) \/ JobUpdate(j) \/ JobLock(j) \/ JobNext(j) \/ JobJudge(j) \/ JobSend(j)
Next == (\E d \in Docs : Text(d) \/ Close(d)) \/ Reply \/ Server

----------------------------------------------------------------------------
Settled == inbox = <<>> /\ main.pc = "idle" /\ \A j \in DOMAIN jobs : jobs[j].pc = "done"
OnlyAllowed == pub # Quiet => Allowed(pub.t, pub.shown, pub.t[2] \ pub.shown, pub.from, settings)
Converged == Settled => \A d \in Docs : Final(<<Latest(d)[1], Shows(Latest(d))>>, out[d], settings)
NotStuck == ~Settled => ENABLED Server
(* the documents the server has are the open ones *)
Known == Settled => \A d \in Docs : tus[d] = IF IsOpen(d) THEN Latest(d) ELSE NoDoc
=============================================================================
