------------------------------- MODULE Rewrite ------------------------------
(* Validates recorded rewrites of string literals (C15): each record has the
   literal before [q, t] and after [q2, t2].  The other style must have been
   written, and it must denote the same value.                               *)
EXTENDS StrValue, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECORDS)
VARIABLE l
Init == l = 0
Next == l = 0 /\ l' \in 1 .. Len(Recs)
Uri(t) == [i \in 1 .. Len(t) |-> C(t[i])]
Before(r) == IF r.q = "uri" THEN Uri(r.t) ELSE ValueOf(r.q, r.t)
Same(r) == r.q2 # r.q /\ Before(r) # BADV /\ Before(r) = ValueOf(r.q2, r.t2)
Check == l = 0 \/ (IF Same(Recs[l]) THEN TRUE ELSE PrintT("@@" \o ToJson([l |-> l, want |-> Before(Recs[l]), got |-> ValueOf(Recs[l].q2, Recs[l].t2)])))
(* nothing was skipped *)
All == TLCGet("distinct") = Len(Recs) + 1
=============================================================================
