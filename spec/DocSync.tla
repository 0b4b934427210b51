------------------------------- MODULE DocSync -----------------------------
(* Synchronization of documents (C01).  The client edits its documents, as
   sequences of UTF-16 code units, by LSP's rules; the server keeps UTF-8 bytes
   and applies the notifications it gets.  What the client believes to be open
   (cl) and what the server has (sv) evolve independently; TLC checks that they
   never differ: whenever the server has a text, it is the client's.

   Clients may err: positions outside the document, inverted ranges, wrong
   lengths, changes and closing of unopened documents.  A change that cannot be
   applied makes the server forget the document until it is opened again.  One
   accommodation, documented in the code for some editors: the start of the line
   after an unterminated last line is taken to mean that the newline exists.   *)
EXTENDS Utf, FiniteSets, Json
CONSTANTS Docs, Texts, Inserts, MaxOps, MaxEdits, MinOps,
          Wild,       \* positions that need not be boundaries
          Errors      \* may the client err?
VARIABLES cl, sv, sync,   \* sync[d]: has every change since opening been accepted?
          ver, hist,
          cur             \* the change notification under construction
vars == <<cl, sv, sync, ver, hist, cur>>
NONE == <<"none">>
Has(x) == x # NONE
Idle == [ph |-> "idle", d |-> CHOOSE d \in Docs : TRUE, edits |-> <<>>, b |-> U16(<<>>), s |-> <<0, 0>>, e |-> <<0, 0>>, len |-> -1]

----------------------------------------------------------------------------
(* One change.  An edit: [r |-> <<start, end>> or <<>> for the whole text, len, t] *)
Slice(s, a, b, t) == SubSeq(s, 1, a) \o t \o SubSeq(s, b + 1, Len(s))
ClientOk(u, e) == e.r = <<>> \/ (Off16(u, e.r[1]) # -1 /\ Off16(u, e.r[2]) >= Off16(u, e.r[1]))
ClientApply(u, e) == IF e.r = <<>> THEN U16(e.t) ELSE Slice(u, Off16(u, e.r[1]), Off16(u, e.r[2]), U16(e.t))

Infers(b, p) == Off8(b, p, FALSE) = -1 /\ (b = <<>> \/ b[Len(b)] # NL) /\ p = <<CountNL(b, Len(b)) + 1, 0>>
Infer(b, p) == IF Infers(b, p) THEN Append(b, NL) ELSE b
(* NONE: rejected *)
ServerApply(b, e) ==
  IF e.r = <<>> THEN U8(e.t)
  ELSE LET b1 == Infer(b, e.r[1])  s == Off8(b1, e.r[1], FALSE)
           b2 == IF s = -1 THEN b1 ELSE Infer(b1, e.r[2])  t == Off8(b2, e.r[2], FALSE)
       IN IF s = -1 \/ t = -1 \/ t < s THEN NONE
          ELSE IF e.len # -1 /\ e.len # Count16(SubSeq(b2, s + 1, t)) THEN NONE
          ELSE Slice(b2, s, t, U8(e.t))

RECURSIVE ServerAll(_, _)
ServerAll(b, es) == IF es = <<>> \/ ~Has(b) THEN b ELSE ServerAll(ServerApply(b, Head(es)), Tail(es))

----------------------------------------------------------------------------
Init == /\ cl = [d \in Docs |-> NONE] /\ sv = [d \in Docs |-> NONE] /\ sync = [d \in Docs |-> TRUE]
        /\ ver = 0 /\ hist = <<>> /\ cur = Idle

Text(b) == IF Has(b) THEN [open |-> TRUE, t |-> Str(Decode8(b))] ELSE [open |-> FALSE, t |-> ""]
Log(op, d, es, after) == hist' = Append(hist, [op |-> op, d |-> d, v |-> ver + 1, edits |-> es, after |-> [x \in Docs |-> Text(after[x])]])
JEdit(e) == [r |-> e.r, len |-> e.len, t |-> Str(e.t)]

Open(d, t) ==
  /\ cur.ph = "idle" /\ Len(hist) < MaxOps
  /\ cl' = [cl EXCEPT ![d] = U16(t)] /\ sv' = [sv EXCEPT ![d] = U8(t)] /\ sync' = [sync EXCEPT ![d] = TRUE]
  /\ ver' = ver + 1 /\ Log("open", d, <<[r |-> <<>>, len |-> -1, t |-> Str(t)]>>, sv') /\ UNCHANGED cur
Close(d) ==
  /\ cur.ph = "idle" /\ Len(hist) < MaxOps /\ (Has(cl[d]) \/ Errors)
  /\ cl' = [cl EXCEPT ![d] = NONE] /\ sv' = [sv EXCEPT ![d] = NONE] /\ sync' = [sync EXCEPT ![d] = TRUE]
  /\ ver' = ver + 1 /\ Log("close", d, <<>>, sv') /\ UNCHANGED cur

(* A change is built edit by edit, position by position *)
Begin(d) == /\ cur.ph = "idle" /\ Len(hist) < MaxOps /\ (Has(cl[d]) \/ Errors)
            /\ cur' = [Idle EXCEPT !.ph = "edit", !.d = d, !.b = IF Has(cl[d]) THEN cl[d] ELSE <<>>]
            /\ UNCHANGED <<cl, sv, sync, ver, hist>>
Bounds(u) == {Pos16(u, o) : o \in {x \in 0..Len(u) : x = Len(u) \/ ~Low(u[x + 1])}}
Start(p) == /\ cur.ph = "edit" /\ Len(cur.edits) < MaxEdits
            /\ (p \in Bounds(cur.b) \/ (Errors /\ p \in Wild))
            /\ cur' = [cur EXCEPT !.ph = "end", !.s = p] /\ UNCHANGED <<cl, sv, sync, ver, hist>>
End(p) == /\ cur.ph = "end"
          /\ ((p \in Bounds(cur.b) /\ (Errors \/ Off16(cur.b, p) >= Off16(cur.b, cur.s))) \/ (Errors /\ p \in Wild))
          /\ cur' = [cur EXCEPT !.ph = "text", !.e = p] /\ UNCHANGED <<cl, sv, sync, ver, hist>>
RealLen == IF ClientOk(cur.b, [r |-> <<cur.s, cur.e>>]) THEN Off16(cur.b, cur.e) - Off16(cur.b, cur.s) ELSE 0
AddEdit(e) == cur' = [cur EXCEPT !.ph = "edit", !.edits = Append(@, e), !.b = IF ClientOk(@, e) THEN ClientApply(@, e) ELSE @]
              /\ UNCHANGED <<cl, sv, sync, ver, hist>>
Insert(t) == /\ cur.ph = "text"
             /\ \E len \in {-1, RealLen} \cup (IF Errors THEN {RealLen + 1} ELSE {}) : AddEdit([r |-> <<cur.s, cur.e>>, len |-> len, t |-> t])
Whole(t) == cur.ph = "edit" /\ Len(cur.edits) < MaxEdits /\ AddEdit([r |-> <<>>, len |-> -1, t |-> t])
(* The client has applied the edits itself; those it cannot apply it has not. *)
Change ==
  /\ cur.ph = "edit" /\ cur.edits # <<>>
  /\ LET d == cur.d  new == IF Has(sv[d]) THEN ServerAll(sv[d], cur.edits) ELSE NONE IN
     /\ sv' = [sv EXCEPT ![d] = new]
     /\ sync' = [sync EXCEPT ![d] = @ /\ (Has(new) \/ ~Has(cl[d]))]
     /\ cl' = [cl EXCEPT ![d] = IF Has(@) THEN cur.b ELSE @]
     /\ ver' = ver + 1 /\ Log("change", d, [i \in 1..Len(cur.edits) |-> JEdit(cur.edits[i])], sv') /\ cur' = Idle

Next == \/ \E d \in Docs : (\E t \in Texts : Open(d, t)) \/ Close(d) \/ Begin(d)
        \/ \E p \in Bounds(cur.b) \cup Wild : Start(p) \/ End(p)
        \/ \E t \in Inserts : Insert(t)
        \/ \E t \in Texts : Whole(t)
        \/ Change

----------------------------------------------------------------------------
(* The client that relies on the accommodation believes in a newline *)
Same(d) == Decode8(sv[d]) = Decode16(cl[d])
Inferred == \E i \in 1..Len(hist) : \E k \in 1..Len(hist[i].edits) : hist[i].edits[k].r # <<>>
   /\ \E p \in {hist[i].edits[k].r[1], hist[i].edits[k].r[2]} : p[2] = 0
InSync == \A d \in Docs : Has(sv[d]) => Has(cl[d]) /\ (Same(d) \/ (Errors /\ Inferred))
Lost == \A d \in Docs : ~Has(sv[d]) <=> (~Has(cl[d]) \/ ~sync[d])
Wellformed == \A d \in Docs : Has(sv[d]) => U8(Decode8(sv[d])) = sv[d]
NoErrors == ~Errors => \A d \in Docs : sync[d] /\ (Has(sv[d]) <=> Has(cl[d]))
Emit == (cur.ph = "idle" /\ Len(hist) >= MinOps) => PrintT("@@" \o ToJson([hist |-> hist]))

----------------------------------------------------------------------------
(* All single changes of a text: the result, or NONE *)
Try(t, p, q, len, i) == ServerApply(U8(t), [r |-> <<p, q>>, len |-> len, t |-> i])
=============================================================================
