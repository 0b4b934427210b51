----------------------------- MODULE SettingsGen ---------------------------
(* Histories of a client that configures: what each configuration names, in   *)
(* which way, and requests in between.  A configuration is written piece by   *)
(* piece.                                                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Names,     \* option sets, a sequence
          Formats,   \* ways a configuration gives the formatting command
          Ways,      \* what happens when an expression is evaluated
          Bad,       \* replies that configure nothing
          MinOps, MaxOps
VARIABLES hist, want, draft, done
vars == <<hist, want, draft, done>>
None == [n \in {} |-> ""]
Op(op) == [op |-> op, fmt |-> "", nix |-> "", opts |-> None, bad |-> "", wait |-> 0]
Start == [at |-> 0, op |-> Op("")]
Init == hist = <<>> /\ want \in MinOps..MaxOps /\ done = FALSE /\ draft = Start
Begin(o, at) == draft.at = 0 /\ Len(hist) < want /\ draft' = [at |-> at, op |-> o] /\ UNCHANGED <<hist, want, done>>
Conf == \E f \in Formats, i \in 1..3 : Begin([Op("conf") EXCEPT !.fmt = f], 1)
BadConf == \E b \in Bad : Begin([Op("bad") EXCEPT !.bad = b], 100)
Format == \E i \in 1..4 : Begin(Op("format"), 100)
More(o, at) == draft' = [at |-> at, op |-> o] /\ UNCHANGED <<hist, want, done>>
Nix == draft.at = 1 /\ \E n \in Ways \cup {"absent", "empty"} : More([draft.op EXCEPT !.nix = n], 2)
Opt == /\ draft.at > 1 /\ draft.at < Len(Names) + 2
       /\ \/ \E w \in Ways : More([draft.op EXCEPT !.opts = (Names[draft.at - 1] :> w) @@ @], draft.at + 1)
          \/ \E i \in Ways : More(draft.op, draft.at + 1)
Log == /\ draft.at >= Len(Names) + 2 /\ draft' = Start /\ UNCHANGED <<want, done>>
       /\ \E w \in {0, 1, 2} : hist' = Append(hist, [draft.op EXCEPT !.wait = w])
End == draft.at = 0 /\ Len(hist) >= want /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist, want, draft>>
Next == Conf \/ BadConf \/ Format \/ Nix \/ Opt \/ Log \/ End
Emit == done => PrintT("@@" \o ToJson(hist))
=============================================================================
