------------------------------ MODULE Snapshot -----------------------------
(* Requests about documents that change while they are answered.  An answer   *)
(* is made of several parts (the text, what was analysed of it, ...), read by *)
(* whoever answers at times of its own choice.  It has to be that of one text *)
(* the document had since it was asked.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Docs, Texts, MaxOps,
          Rule    \* "once": all parts at once; "twice": the parts one by one;
                  \* "later": texts are taken over some time after they came; "kept": answers of the past are used again
VARIABLES sent,    \* document |-> texts it had, as the client knows; 0 is none
          taken,   \* document |-> how many of them the server has taken over
          asked,   \* requests being answered
          answers, \* [d, from, to, parts]
          ops
vars == <<sent, taken, asked, answers, ops>>
Parts == {"text", "analysis"}
NoParts == [p \in Parts |-> -1]
Init == /\ sent = [d \in Docs |-> <<0>>] /\ taken = [d \in Docs |-> 1] /\ asked = {} /\ answers = {} /\ ops = 0
Cur(d) == sent[d][taken[d]]
Send == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \E d \in Docs, t \in Texts \cup {0} : /\ sent' = [sent EXCEPT ![d] = Append(@, t)]
              /\ taken' = [taken EXCEPT ![d] = IF Rule = "later" THEN @ ELSE Len(sent[d]) + 1]
        /\ UNCHANGED <<asked, answers>>
Take == /\ \E d \in Docs : taken[d] < Len(sent[d]) /\ taken' = [taken EXCEPT ![d] = @ + 1]
        /\ UNCHANGED <<sent, asked, answers, ops>>
Ask == /\ ops < MaxOps /\ ops' = ops + 1
       /\ \E d \in Docs : asked' = asked \cup {[d |-> d, id |-> ops, from |-> Len(sent[d]), parts |-> NoParts]}
       /\ UNCHANGED <<sent, taken, answers>>
Old(d) == {a.parts : a \in {x \in answers : x.d = d}}
Read == /\ \E r \in asked : \E ps \in (IF Rule = "twice" THEN {{p} : p \in Parts} ELSE {Parts}) :
             /\ \A p \in ps : r.parts[p] = -1
             /\ \E new \in {[p \in Parts |-> IF p \in ps THEN Cur(r.d) ELSE r.parts[p]]} \cup (IF Rule = "kept" THEN Old(r.d) ELSE {}) :
                  asked' = (asked \ {r}) \cup {[r EXCEPT !.parts = new]}
        /\ UNCHANGED <<sent, taken, answers, ops>>
Answer == /\ \E r \in asked : /\ \A p \in Parts : r.parts[p] # -1
               /\ asked' = asked \ {r}
               /\ answers' = answers \cup {[d |-> r.d, from |-> r.from, to |-> Len(sent[r.d]), parts |-> r.parts]}
          /\ UNCHANGED <<sent, taken, ops>>
Next == Send \/ Take \/ Ask \/ Read \/ Answer
\* the answer is that of one text since it was asked
OneText == \A a \in answers : \E v \in a.from .. a.to : \A p \in Parts : a.parts[p] = sent[a.d][v]
=============================================================================
