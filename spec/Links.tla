------------------------------- MODULE Links -------------------------------
(* Which page documents what is under the cursor: the innermost selection     *)
(* around it, if that selects names known from the text from the variable     *)
(* lib.  Expressions are written piece by piece; each piece says by which     *)
(* selection it is surrounded.                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Bases,     \* texts; one is the variable lib
          Segs,      \* [t |-> text, v |-> the name, or "" where the text does not tell]
          MaxNames, MaxDepth,
          Rule       \* "innermost"; "outermost": of nested selections the outer counts;
                     \* "anyBase": whatever is selected from
VARIABLES out,       \* pieces written: [t |-> text, in |-> selections around it]
          sels,      \* selections begun: [base |-> .., names |-> ..]
          stack,     \* those not ended: [s |-> number, pc |-> what comes next, ctx |-> text that ends it]
          done
vars == <<out, sels, stack, done>>
Around == [i \in 1..Len(stack) |-> stack[i].s]
Write(t) == out' = Append(out, [t |-> t, in |-> Around])
Init == out = <<[t |-> "ff ", in |-> <<>>]>> /\ sels = <<>> /\ stack = <<[s |-> 0, pc |-> "base", ctx |-> " gg"]>> /\ done = FALSE
Last(s) == s[Len(s)]
Upper == SubSeq(stack, 1, Len(stack) - 1)
To(pc) == stack' = [stack EXCEPT ![Len(stack)].pc = pc]
Base == /\ stack # <<>> /\ Last(stack).pc = "base"
        /\ \E b \in Bases : /\ sels' = Append(sels, [base |-> b, names |-> <<>>])
                            /\ out' = Append(out, [t |-> b, in |-> [i \in 1..Len(stack) |-> IF i = Len(stack) THEN Len(sels) + 1 ELSE stack[i].s]])
                            /\ stack' = Append(Upper, [Last(stack) EXCEPT !.s = Len(sels) + 1, !.pc = "name"])
        /\ UNCHANGED done
Name(v) == sels' = [sels EXCEPT ![Last(stack).s].names = Append(@, v)]
More == stack # <<>> /\ Last(stack).pc \in {"name", "more"} /\ Len(sels[Last(stack).s].names) < MaxNames
Seg == /\ More /\ \E x \in Segs : Write("." \o x.t) /\ Name(x.v)
       /\ To("more") /\ UNCHANGED done
\* a name computed from another selection
Dynamic == /\ More /\ Len(stack) < MaxDepth /\ Write(".${") /\ Name("")
           /\ stack' = Append([stack EXCEPT ![Len(stack)].pc = "more"], [s |-> 0, pc |-> "base", ctx |-> "}"])
           /\ UNCHANGED done
Ends == stack # <<>> /\ Last(stack).pc = "more"
Or == /\ Ends /\ Len(stack) < MaxDepth
      /\ \/ Write(" or (dd ") /\ stack' = Append([stack EXCEPT ![Len(stack)].pc = "end"], [s |-> 0, pc |-> "base", ctx |-> " ee)"])
         \/ Write(" or yy") /\ To("end")
      /\ UNCHANGED <<sels, done>>
\* the text that ends an inner selection belongs to the outer one
End == /\ stack # <<>> /\ Last(stack).pc \in {"more", "end"}
       /\ out' = Append(out, [t |-> Last(stack).ctx, in |-> [i \in 1..Len(Upper) |-> Upper[i].s]])
       /\ stack' = Upper /\ UNCHANGED <<sels, done>>
Done == stack = <<>> /\ ~done /\ done' = TRUE /\ UNCHANGED <<out, sels, stack>>
Next == Base \/ Seg \/ Dynamic \/ Or \/ End \/ Done

NoPage == <<>>
Page(in) == IF in = <<>> THEN NoPage
            ELSE LET s == sels[IF Rule = "outermost" THEN in[1] ELSE Last(in)]
                 IN  IF (s.base = "lib" \/ Rule = "anyBase") /\ (\A i \in 1..Len(s.names) : s.names[i] # "") THEN s.names ELSE NoPage
\* a page is that of the selection whose piece is under the cursor
Own == done => \A i \in 1..Len(out) : LET p == out[i] IN
         /\ Page(p.in) # NoPage => /\ sels[Last(p.in)].base = "lib" /\ sels[Last(p.in)].names = Page(p.in)
         /\ (p.in # <<>> /\ sels[Last(p.in)].base = "lib" /\ "" \notin {sels[Last(p.in)].names[k] : k \in 1..Len(sels[Last(p.in)].names)}) => Page(p.in) # NoPage
Emit == done => PrintT("@@" \o ToJson([i \in 1..Len(out) |-> [t |-> out[i].t, page |-> Page(out[i].in)]]))
=============================================================================
