---------------------------- MODULE SettingsTrace --------------------------
(* Is what a client and its workers have seen allowed by Settings?  Events:
     [e |-> "conf", fmt, names]      a configuration was replied: what formatting
                                     then yields, and which workers it names
     [e |-> "ask", id]               formatting was requested
     [e |-> "ans", id, got]          and yielded this
     [e |-> "create" / "begin" / "end", t]   of a progress
     [e |-> "final", got, logs, dead]  all is quiet: what formatting yields, what
                                     each worker process was told to evaluate
                                     (<<worker, number of configuration>>), which
                                     workers have died, and how many processes
                                     were started                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Histories == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES h, i, confs,
          lo,        \* the configuration in effect is this or a later one
          asked,     \* lo when formatting was requested
          seen,      \* configurations that were in effect
          open, made
vars == <<h, i, confs, lo, asked, seen, open, made>>
H == Histories[h]
Ev == H.ev[i]
ToSet(s) == {s[k] : k \in DOMAIN s}
Init == /\ h \in DOMAIN Histories /\ i = 1
        /\ confs = Histories[h].first    \* of the command line; the first is the default
        /\ lo = Len(Histories[h].first) /\ asked = <<>> /\ seen = {} /\ open = {} /\ made = {}
Conf == Ev.e = "conf" /\ confs' = Append(confs, [fmt |-> Ev.fmt, names |-> Ev.names]) /\ UNCHANGED <<lo, asked, seen, open, made>>
Ask == Ev.e = "ask" /\ asked' = Append(asked, lo) /\ UNCHANGED <<confs, lo, seen, open, made>>
\* the configurations that may have been in effect when a request was answered
May(from, got) == {k \in from..Len(confs) : confs[k].fmt = got}
Least(ks) == CHOOSE k \in ks : \A x \in ks : k <= x
Greater(a, b) == IF a > b THEN a ELSE b
Ans == /\ Ev.e = "ans" /\ May(asked[Ev.id], Ev.got) # {}
       /\ lo' = Greater(lo, Least(May(asked[Ev.id], Ev.got)))
       /\ seen' = IF Cardinality(May(asked[Ev.id], Ev.got)) = 1 THEN seen \cup May(asked[Ev.id], Ev.got) ELSE seen
       /\ UNCHANGED <<confs, asked, open, made>>
\* a progress is created once, begins, and ends
Create == Ev.e = "create" /\ H.progress /\ Ev.t \notin made /\ made' = made \cup {Ev.t} /\ UNCHANGED <<confs, lo, asked, seen, open>>
Begin == Ev.e = "begin" /\ Ev.t \in made /\ <<Ev.t, 1>> \notin open /\ open' = open \cup {<<Ev.t, 1>>} /\ UNCHANGED <<confs, lo, asked, seen, made>>
Finish == Ev.e = "end" /\ <<Ev.t, 1>> \in open /\ <<Ev.t, 2>> \notin open /\ open' = open \cup {<<Ev.t, 2>>} /\ UNCHANGED <<confs, lo, asked, seen, made>>
Ended == \A t \in made : <<t, 1>> \in open /\ <<t, 2>> \in open

Logs == ToSet(Ev.logs)
Worker(l) == l[1][1]
All == UNION {ToSet(l) : l \in Logs}
\* configurations that took effect: of which something was evaluated or seen, and the last one
Applied == {x[2] : x \in All} \cup seen \cup {Len(confs)} \cup DOMAIN H.first
RECURSIVE Told(_, _)
\* what a worker is told to evaluate, from the k-th configuration on
Told(w, k) == IF k > Len(confs) THEN <<>>
              ELSE (IF k \in Applied /\ w \in ToSet(confs[k].names) THEN <<<<w, k>>>> ELSE <<>>) \o Told(w, k + 1)
Prefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Named == UNION {ToSet(confs[k].names) : k \in Applied}
Reasons == [latest |-> Ev.got = confs[Len(confs)].fmt,
            one |-> \A a \in DOMAIN Ev.logs, b \in DOMAIN Ev.logs : a # b => Worker(Ev.logs[a]) # Worker(Ev.logs[b]),
            told |-> \A l \in Logs : IF Worker(l) \in ToSet(Ev.dead) THEN Prefix(l, Told(Worker(l), 1)) ELSE l = Told(Worker(l), 1),
            all |-> Named = {Worker(l) : l \in Logs},
            progress |-> Ended,
            processes |-> Ev.procs = Len(Ev.logs),
            reported |-> IF ~H.progress THEN made = {} ELSE IF Ev.dead = <<>> THEN Cardinality(made) = Cardinality(All) ELSE Cardinality(made) >= Cardinality(All)]
FinalOk == \A k \in DOMAIN Reasons : Reasons[k]
Final == Ev.e = "final" /\ (FinalOk) = TRUE /\ PrintT("@@" \o ToJson([id |-> H.id, ok |-> TRUE])) /\ UNCHANGED <<confs, lo, asked, seen, open, made>>
Next == i <= Len(H.ev) /\ i' = i + 1 /\ UNCHANGED h /\ (Conf \/ Ask \/ Ans \/ Create \/ Begin \/ Finish \/ Final)
Stuck == (i <= Len(H.ev) /\ ~ENABLED Next) =>
         PrintT("@@" \o ToJson([id |-> H.id, ok |-> FALSE, at |-> i, lo |-> lo, confs |-> confs, why |-> IF Ev.e = "final" THEN Reasons ELSE [x \in {} |-> TRUE]]))
=============================================================================
