------------------------------ MODULE UriTrace -----------------------------
(* Does every URI the server has sent denote the path it has to?  Records: [n, u, p]. *)
EXTENDS Uri, TLC, Json, IOUtils
Records == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE i
Init == i \in DOMAIN Records
Next == UNCHANGED i
Judge == Resolve(Records[i].u) = Records[i].p \/ PrintT("@@" \o ToJson([n |-> Records[i].n, got |-> Resolve(Records[i].u)]))
=============================================================================
