------------------------------- MODULE Diags -------------------------------
(* What may be published (C18).  A text of a document is <<v, kinds>>: the number
   of the client's operation that made it, and the kinds of diagnostics it has;
   <<v, {}>> also stands for having been closed.  Settings are sets of
   suppressed kinds; settings[1] are those at the start.                       *)
EXTENDS Naturals, Sequences, FiniteSets

(* While settings change some diagnostics may be judged by the older ones, even
   some of a kind.  shown, hidden: kinds with a diagnostic that is (not) there. *)
Visible(kinds, shown, hidden, settings) ==
  /\ shown \cup hidden = kinds
  /\ \A k \in shown : \E j \in DOMAIN settings : k \notin settings[j]
  /\ \A k \in hidden : \E j \in DOMAIN settings : k \in settings[j]

(* May this of text t be published, when the latest one published is of text number v? *)
Allowed(t, shown, hidden, v, settings) == t[1] >= v /\ Visible(t[2], shown, hidden, settings)

(* Is it what has to be there in the end? *)
Final(t, o, settings) == o.v = t[1] /\ o.shown = t[2] \ settings[Len(settings)] /\ o.hidden = t[2] \ o.shown
=============================================================================
