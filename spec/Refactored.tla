----------------------------- MODULE Refactored -----------------------------
(* Validates recorded refactorings (C14): the program before and the program
   after denote the same.                                                    *)
EXTENDS Denote, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECORDS)
VARIABLE l
Init == l = 0
Next == l = 0 /\ l' \in 1 .. Len(Recs)
Same(r) == Norm(r.before, <<>>) = Norm(r.after, <<>>)
Check == l = 0 \/ (IF Same(Recs[l]) THEN TRUE ELSE PrintT("@@" \o ToJson([l |-> l])))
All == TLCGet("distinct") = Len(Recs) + 1
=============================================================================
