----------------------------- MODULE GrammarMut ----------------------------
(* Sentences of the grammar damaged by at most Edits edits: what an editor
   shows while the user is typing (C05, C19, C21).                          *)
EXTENDS Grammar, Randomization
CONSTANTS Edits,
          Junk      \* pieces that may be inserted
VARIABLES done
mvars == <<vars, done>>

MInit == Init /\ done = 0
Cut(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Ins(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
At == 1 .. Len(text)
Grow == stk # <<>> /\ Next /\ UNCHANGED done
Edit(t) == /\ text' = t /\ done' = done + 1 /\ UNCHANGED <<tree, stk, left, used>>
(* Few successors per state: the sentence to be damaged is picked by random walk. *)
Drop == \E i \in RandomSubset(2, At) : Edit(Cut(text, i))
Dup == \E i \in RandomSubset(2, At) : Edit(Ins(text, i, text[i]))
Insert == \E i \in RandomSubset(2, At), x \in RandomSubset(2, Junk) : Edit(Ins(text, i, x))
Swap == \E i \in RandomSubset(2, At), j \in RandomSubset(2, At) : Edit([text EXCEPT ![i] = text[j], ![j] = text[i]])
Truncate == \E i \in RandomSubset(2, At) : Edit(SubSeq(text, 1, i))
Damage == stk = <<>> /\ done < Edits /\ Len(text) > 2 /\ (Drop \/ Dup \/ Insert \/ Swap \/ Truncate)
MNext == Grow \/ Damage
MEmit == (stk = <<>> /\ done > 0) => PrintT("@@" \o ToJson(text))
MTypeOK == done <= Edits
=============================================================================
