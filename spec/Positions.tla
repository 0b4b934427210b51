----------------------------- MODULE Positions -----------------------------
(* C02: positions of LSP and byte offsets correspond, for every text.  TLC
   checks that the server's byte-wise conversion (Utf!Off8, Pos8) agrees with
   the client's view in code units; the results are the oracle for the code. *)
EXTENDS Utf, Json
CONSTANTS Alphabet, MaxLen, MinLen
VARIABLES text
Init == text = <<>>
Next == Len(text) < MaxLen /\ \E c \in Alphabet : text' = Append(text, c)
B == U8(text)
U == U16(text)
Bound8(i) == Len(U8(SubSeq(text, 1, i)))
Bound16(i) == Len(U16(SubSeq(text, 1, i)))
Grid == {<<l, c>> : l \in -1..(CountNL(B, Len(B)) + 1), c \in -1..(Len(U) + 2)}

RoundTrip == \A i \in 0..Len(text) : Off8(B, Pos8(B, Bound8(i)), FALSE) = Bound8(i)
SameUnits == \A i \in 0..Len(text) : Pos8(B, Bound8(i)) = Pos16(U, Bound16(i))
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Order == \A i \in 0..Len(text) - 1 : Before(Pos8(B, Bound8(i)), Pos8(B, Bound8(i + 1)))
Strict == \A p \in Grid : LET o == Off16(U, p)  q == Off8(B, p, FALSE) IN
   IF o = -1 THEN q = -1 ELSE \E i \in 0..Len(text) : Bound16(i) = o /\ Bound8(i) = q
Clamped == \A p \in Grid : LET q == Off8(B, p, TRUE) IN
   q # -1 => q \in {Bound8(i) : i \in 0..Len(text)} /\ CountNL(B, q) = p[1]
Decodes == Decode8(B) = text /\ Decode16(U) = text

RECURSIVE SetSeq(_)
SetSeq(x) == IF x = {} THEN <<>> ELSE LET e == CHOOSE e \in x : TRUE IN <<e>> \o SetSeq(x \ {e})
Emit == Len(text) >= MinLen => PrintT("@@" \o ToJson([text |-> Str(text),
   bounds |-> [i \in 1..Len(text) + 1 |-> <<Bound8(i - 1), Pos8(B, Bound8(i - 1))>>],
   grid |-> LET g == SetSeq(Grid) IN [k \in 1..Len(g) |-> <<g[k], Off8(B, g[k], FALSE), Off8(B, g[k], TRUE)>>]]))
=============================================================================
