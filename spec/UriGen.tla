------------------------------- MODULE UriGen ------------------------------
(* Generates URIs: of paths, with each byte written in some way (mode "path");
   any text (mode "text").                                                   *)
EXTENDS Uri, TLC, Json, Randomization
CONSTANTS Mode, Bytes, Styles, Prefixes, MinLen, MaxLen,
          Width     \* of the choice of bytes when simulating, 0: all
VARIABLES path, uri, pre
vars == <<path, uri, pre>>
Choice == IF Width = 0 THEN Bytes ELSE RandomSubset(Width, Bytes)
Init == /\ pre \in Prefixes /\ uri = <<>> /\ path = <<>>
(* how a byte of a path may be written: raw unless that would be taken for something else *)
Raw(b) == b # Pct /\ b >= 32 /\ b < 128
Ways(b) == {w \in {IF s = "raw" THEN (IF Raw(b) THEN <<b>> ELSE Escape(b))
             ELSE IF s = "upper" THEN Escape(b) ELSE <<Pct, HexL(b \div 16), HexL(b % 16)>> : s \in Styles} : w # <<>>}
Path == /\ Mode = "path" /\ Len(path) < MaxLen
        /\ \E b \in Choice : \E w \in Ways(b) :
             (~(uri = <<>> /\ w = <<Slash>> /\ Len(pre) < 8)) = TRUE /\ path' = Append(path, b) /\ uri' = uri \o w /\ UNCHANGED pre
Text == /\ Mode = "text" /\ Len(uri) < MaxLen /\ \E b \in Choice : uri' = Append(uri, b) /\ UNCHANGED <<path, pre>>
Next == Path \/ Text
Whole == pre \o uri
Body == <<Slash>> \o path
Ready == (IF Mode = "path" THEN Len(path) ELSE Len(uri)) >= MinLen
----------------------------------------------------------------------------
(* every way of writing a path denotes it; so does what it is encoded as *)
AllForms == Mode = "path" => Resolve(Whole) = Body
RoundTrip == Mode = "path" => Resolve(UriOf(Body)) = Body
(* what is accepted is absolute, and encoding that is a form of it *)
Accepted == Resolve(Whole) # Reject => Absolute(Resolve(Whole)) /\ Resolve(UriOf(Resolve(Whole))) = Resolve(Whole)
Emit == Ready => PrintT("@@" \o ToJson([u |-> Whole, p |-> Resolve(Whole), net |-> NetRoot(Resolve(Whole))]))
=============================================================================
