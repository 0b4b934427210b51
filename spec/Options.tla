------------------------------ MODULE Options ------------------------------
(* Options of the server, from the command line and from the environment.    *)
(* Together they say with which features it runs: the environment is read     *)
(* first, then the command line, and of an option given again the last counts;*)
(* whatever is not given is as by default; and what cannot be understood is    *)
(* refused before anything is done.                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds,     \* [option |-> values it may be given; "bad" is none of its own]
          Places,    \* "arg", "env"
          MaxGiven,
          Rule       \* "last"; "first": of several the first counts; "env": the environment is read after the command line
VARIABLES given,     \* [o |-> option, v |-> value, at |-> place]
          done
vars == <<given, done>>
Features == DOMAIN Kinds \ {"version", "help", "unknown", "position"}
Default == [o \in Features |-> "default"]
Init == given = <<>> /\ done = FALSE
Give == /\ ~done /\ Len(given) < MaxGiven
        /\ \E o \in DOMAIN Kinds : \E v \in Kinds[o], p \in Places : given' = Append(given, [o |-> o, v |-> v, at |-> p])
        /\ UNCHANGED done
End == ~done /\ done' = TRUE /\ UNCHANGED given
Next == Give \/ End
\* the environment is read before the command line
Env == SelectSeq(given, LAMBDA g : g.at = "env")
Arg == SelectSeq(given, LAMBDA g : g.at = "arg")
Order == IF Rule = "env" THEN Arg \o Env ELSE Env \o Arg
Of(gs, o) == SelectSeq(gs, LAMBDA g : g.o = o)
Bad(gs) == \E i \in 1..Len(gs) : gs[i].v = "bad"
Asked(gs) == {gs[i].o : i \in 1..Len(gs)} \cap {"version", "help"}
Outcome(gs) == IF Bad(gs) THEN "refused" ELSE IF Asked(gs) # {} THEN "told" ELSE "runs"
With(gs) == [o \in Features |-> IF Of(gs, o) = <<>> THEN Default[o] ELSE Of(gs, o)[IF Rule = "first" THEN 1 ELSE Len(Of(gs, o))].v]
\* what the command line says about an option is what counts, in its own order
Says == done /\ Outcome(Order) = "runs" => \A o \in Features : Of(Arg, o) # <<>> => With(Order)[o] = Of(Arg, o)[Len(Of(Arg, o))].v
\* options are independent: those of other features may be left out
Alone == done /\ Outcome(Order) = "runs" => \A o \in Features : With(Of(Order, o))[o] = With(Order)[o]
\* each option switches its own feature only
Own == done /\ Outcome(Order) = "runs" => \A o \in Features : With(Order)[o] # Default[o] <=> \E i \in 1..Len(given) : given[i].o = o
Emit == done => PrintT("@@" \o ToJson([given |-> given, outcome |-> Outcome(Order), with |-> With(Order), mixed |-> Bad(Order) /\ Asked(Order) # {}]))
=============================================================================
