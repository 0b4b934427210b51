---------------------------- MODULE PublishTrace ---------------------------
(* Is what a client has seen allowed by Diags?  Validates recorded histories.
   An event:
     [e |-> "set", d, v, kinds]       a text was sent
     [e |-> "close", d, v]            a document was closed
     [e |-> "conf", s]                a configuration was replied
     [e |-> "pub", d, ver, cands]     diagnostics were received: texts of the
                                      client they could be of, each <<v, shown, hidden>>
     [e |-> "end"]                    nothing more has come                     *)
EXTENDS Diags, TLC, Json, IOUtils
Histories == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES h, i, texts, settings, out,
          due    \* open documents that have to be published again
vars == <<h, i, texts, settings, out, due>>
H == Histories[h]
Ev == H.ev[i]
ToSet(s) == {s[k] : k \in DOMAIN s}
None == [v |-> 0, shown |-> {}, hidden |-> {}]
Closed == {"closed"}

Init == /\ h \in DOMAIN Histories /\ i = 1
        /\ texts = [d \in ToSet(Histories[h].docs) |-> <<<<0, Closed>>>>]
        /\ out = [d \in ToSet(Histories[h].docs) |-> None]
        /\ settings = <<ToSet(Histories[h].sup)>> /\ due = {}
Latest(d) == texts[d][Len(texts[d])]
Shows(t) == <<t[1], t[2] \ Closed>>
Opened == {d \in DOMAIN texts : Latest(d)[2] # Closed}

Set == /\ Ev.e = "set" /\ texts' = [texts EXCEPT ![Ev.d] = Append(@, <<Ev.v, ToSet(Ev.kinds)>>)]
       /\ due' = due \cup {Ev.d} /\ UNCHANGED <<settings, out>>
Close == /\ Ev.e = "close" /\ texts' = [texts EXCEPT ![Ev.d] = Append(@, <<Ev.v, Closed>>)]
         /\ due' = due \ {Ev.d} /\ UNCHANGED <<settings, out>>
Conf == /\ Ev.e = "conf" /\ settings' = Append(settings, ToSet(Ev.s))
        /\ due' = due \cup Opened /\ UNCHANGED <<texts, out>>
Cands == {<<t, Ev.cands[c]>> : t \in ToSet(texts[Ev.d]), c \in DOMAIN Ev.cands}
PubOk(c) == /\ c[1][1] = c[2][1]
            /\ Allowed(Shows(c[1]), ToSet(c[2][2]), ToSet(c[2][3]), out[Ev.d].v, settings)
            /\ Ev.ver \in {0 - 1, c[1][1]}
Pub == /\ Ev.e = "pub"
       /\ \E c \in {x \in Cands : PubOk(x)} : out' = [out EXCEPT ![Ev.d] = [v |-> c[1][1], shown |-> ToSet(c[2][2]), hidden |-> ToSet(c[2][3])]]
       /\ due' = due \ {Ev.d} /\ UNCHANGED <<texts, settings>>
EndOk == due = {} /\ \A d \in DOMAIN texts : (out[d].v = 0 /\ Len(texts[d]) = 1) \/ Final(Shows(Latest(d)), out[d], settings)
End == Ev.e = "end" /\ EndOk = TRUE /\ PrintT("@@" \o ToJson([id |-> H.id, ok |-> TRUE])) /\ UNCHANGED <<texts, settings, out, due>>
Next == i <= Len(H.ev) /\ i' = i + 1 /\ UNCHANGED h /\ (Set \/ Close \/ Conf \/ Pub \/ End)
(* how far a rejected history got *)
Stuck == (i <= Len(H.ev) /\ ~ENABLED Next) => PrintT("@@" \o ToJson([id |-> H.id, ok |-> FALSE, at |-> i, texts |-> texts, settings |-> settings, out |-> out, due |-> due]))
=============================================================================
