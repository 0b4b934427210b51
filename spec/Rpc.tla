-------------------------------- MODULE Rpc --------------------------------
(* Requests, notifications and replies in both directions (C03), one message of
   the client at a time.  The server's methods are those of harness/rpc_h.cpp.
   Every step says what the server has to send in consequence.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Max,        \* calls that may be outstanding
          Bursts,     \* numbers of calls made at once
          Ids,        \* ids of the client's requests
          Picks,      \* which calls are replied to, see Pick
          MinOps, MaxOps
VARIABLES next,       \* id of the next outgoing call
          pending,    \* outstanding calls, oldest first: <<id, tag>>
          answered, given,   \* ids answered, given up
          held,       \* requests not answered yet: <<k, id>>
          ran,        \* <<tag, how>> of every continuation that has run
          hist, want, done
vars == <<next, pending, answered, given, held, ran, hist, want, done>>

Init == /\ next = 1 /\ pending = <<>> /\ answered = {} /\ given = {} /\ held = <<>> /\ ran = <<>>
        /\ hist = <<>> /\ want \in MinOps .. MaxOps /\ done = FALSE

Reply(id, x) == [k |-> "reply", id |-> id, x |-> x]
Error(id) == [k |-> "error", id |-> id, x |-> ""]
Ask(id, tag) == [k |-> "ask", id |-> ToString(id), x |-> tag]
Ran(tag, how) == [k |-> "ran", id |-> tag, x |-> how]
Step(op, outs) == hist' = Append(hist, [op |-> op, outs |-> outs]) /\ UNCHANGED <<want, done>>
Go == Len(hist) < want
Calls == UNCHANGED <<next, pending, answered, given, ran>>

(* Requests *)
Echo == Go /\ \E i \in Ids : Step([k |-> "echo", id |-> i], <<Reply(i, "echo")>>) /\ Calls /\ UNCHANGED held
Fail == Go /\ \E i \in Ids : Step([k |-> "fail", id |-> i], <<Error(i)>>) /\ Calls /\ UNCHANGED held
Unknown == Go /\ \E i \in Ids : Step([k |-> "unknown", id |-> i], <<Error(i)>>) /\ Calls /\ UNCHANGED held
Typed == Go /\ \E i \in Ids, ok \in BOOLEAN : Step([k |-> IF ok THEN "typed" ELSE "mistyped", id |-> i], <<IF ok THEN Reply(i, "7") ELSE Error(i)>>) /\ Calls /\ UNCHANGED held
Later == Go /\ Len(held) < 3 /\ \E i \in Ids : held' = Append(held, <<Len(hist), i>>) /\ Step([k |-> "later", id |-> i, key |-> Len(hist)], <<>>) /\ Calls
Release == Go /\ \E j \in DOMAIN held, ok \in BOOLEAN, th \in BOOLEAN :
  /\ held' = SubSeq(held, 1, j - 1) \o SubSeq(held, j + 1, Len(held))
  /\ Step([k |-> "release", key |-> held[j][1], ok |-> ok, th |-> th], <<IF ok THEN Reply(held[j][2], "held") ELSE Error(held[j][2])>>) /\ Calls
(* Notifications are never answered, whatever is wrong with them; nor is what is no message *)
Note == Go /\ \E n \in {"unknown-note", "mistyped-note", "method-as-note", "note-as-response", "no-version", "wrong-version", "not-object", "no-id-response", "release-nothing"} :
  Step([k |-> n], <<>>) /\ Calls /\ UNCHANGED held
(* ... but a request for something that only is a notification is one of an unknown method *)
NoteAsCall == Go /\ \E i \in Ids : Step([k |-> "note-as-call", id |-> i], <<Error(i)>>) /\ Calls /\ UNCHANGED held

(* Outgoing calls: one more than may be outstanding gives up the oldest *)
RECURSIVE Make(_, _)
Make(n, st) ==
  IF n = 0 THEN st
  ELSE LET id == st.next
           tag == "t" \o ToString(id)
           p == Append(st.pending, <<id, tag>>)
           over == Len(p) > Max
           st1 == [next |-> id + 1, pending |-> IF over THEN Tail(p) ELSE p, given |-> IF over THEN st.given \cup {Head(p)[1]} ELSE st.given,
                   ran |-> IF over THEN Append(st.ran, <<Head(p)[2], "error">>) ELSE st.ran,
                   outs |-> st.outs \o <<Ask(id, tag)>> \o (IF over THEN <<Ran(Head(p)[2], "error")>> ELSE <<>>)]
       IN Make(n - 1, st1)
Call == Go /\ \E n \in Bursts :
  LET st == Make(n, [next |-> next, pending |-> pending, given |-> given, ran |-> ran, outs |-> <<>>]) IN
    /\ next' = st.next /\ pending' = st.pending /\ given' = st.given /\ ran' = st.ran
    /\ Step([k |-> "call", tags |-> [j \in 1 .. n |-> "t" \o ToString(next + j - 1)]], st.outs) /\ UNCHANGED <<answered, held>>

(* Replies of the client.  Pick: the id a reply bears. *)
Pick(p) == CASE p = "oldest" -> IF pending = <<>> THEN 0 ELSE pending[1][1]
             [] p = "newest" -> IF pending = <<>> THEN 0 ELSE pending[Len(pending)][1]
             [] p = "middle" -> IF pending = <<>> THEN 0 ELSE pending[(Len(pending) + 1) \div 2][1]
             [] p = "answered" -> IF answered = {} THEN 0 ELSE CHOOSE x \in answered : \A y \in answered : x >= y
             [] p = "given" -> IF given = {} THEN 0 ELSE CHOOSE x \in given : \A y \in given : x >= y
             [] p = "next" -> next
             [] OTHER -> 0
Index(id) == {j \in DOMAIN pending : pending[j][1] = id}
Answer == Go /\ \E p \in Picks, how \in {"result", "error", "null", "bad-error"} :
  LET id == Pick(p)
      js == Index(id)
  IN IF js = {} THEN Step([k |-> "answer", pick |-> p, id |-> id, how |-> how], <<>>) /\ Calls /\ UNCHANGED held
     ELSE LET j == CHOOSE x \in js : TRUE
              r == IF how = "error" THEN "error" ELSE IF how = "result" THEN pending[j][2] ELSE "null"
          IN /\ pending' = SubSeq(pending, 1, j - 1) \o SubSeq(pending, j + 1, Len(pending))
             /\ answered' = answered \cup {id} /\ ran' = Append(ran, <<pending[j][2], r>>)
             /\ Step([k |-> "answer", pick |-> p, id |-> id, how |-> how], <<Ran(pending[j][2], r)>>) /\ UNCHANGED <<next, given, held>>

(* The end of the input fails the calls left; requests held back are never answered by rpc_h *)
End == /\ ~Go /\ ~done /\ done' = TRUE
       /\ ran' = ran \o [j \in DOMAIN pending |-> <<pending[j][2], "error">>]
       /\ hist' = Append(hist, [op |-> [k |-> "eof"], outs |-> [j \in DOMAIN pending |-> Ran(pending[j][2], "error")]])
       /\ pending' = <<>> /\ given' = given \cup {pending[j][1] : j \in DOMAIN pending} /\ UNCHANGED <<next, answered, held, want>>

Next == \/ Echo \/ Fail \/ Unknown \/ Typed \/ Later \/ Release \/ Note \/ NoteAsCall \/ Call \/ Answer \/ End

----------------------------------------------------------------------------
Outs == UNION {{<<s, o>> : o \in DOMAIN hist[s].outs} : s \in DOMAIN hist}
OfKind(k) == {so \in Outs : hist[so[1]].outs[so[2]].k = k}
Limited == Len(pending) <= Max
Fresh == Cardinality(OfKind("ask")) = next - 1 /\ \A a, b \in OfKind("ask") : a # b => hist[a[1]].outs[a[2]].id # hist[b[1]].outs[b[2]].id
Once == \A a, b \in DOMAIN ran : a # b => ran[a][1] # ran[b][1]
Accounted == 1 .. (next - 1) = answered \cup given \cup {pending[j][1] : j \in DOMAIN pending}
OldestGivenUp == ~done => \A g \in given, j \in DOMAIN pending : g < pending[j][1]
Complete == done => Len(ran) = next - 1
Requests == {s \in DOMAIN hist : hist[s].op.k \in {"echo", "fail", "unknown", "typed", "mistyped", "later", "note-as-call"}}
OneReply == Cardinality(OfKind("reply") \cup OfKind("error")) + Len(held) = Cardinality(Requests)
Emit == done => PrintT("@@" \o ToJson(hist))
=============================================================================
