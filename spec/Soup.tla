------------------------------- MODULE Soup --------------------------------
(* Arbitrary texts as sequences of pieces (C05, C07, C21): every sequence of
   at most MaxLen pieces of Alphabet.  Pieces are names; the driver writes
   out their bytes.                                                         *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Alphabet, MaxLen, MinLen
VARIABLES seq
Init == seq = <<>>
Next == Len(seq) < MaxLen /\ \E p \in Alphabet : seq' = Append(seq, p)
TypeOK == Len(seq) <= MaxLen
Emit == Len(seq) >= MinLen => PrintT("@@" \o ToJson(seq))
=============================================================================
