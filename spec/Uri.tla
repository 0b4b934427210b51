-------------------------------- MODULE Uri --------------------------------
(* File URIs and paths as sequences of bytes (C22): the rules of RFC 3986 as far
   as the server reads them.  Percent escapes of either case stand for a byte; a
   `%` that begins no escape stands for itself.  `file:` URIs have an optional
   authority; the path of one with an authority is //authority/path.          *)
EXTENDS Naturals, Sequences, FiniteSets
Slash == 47
Colon == 58
Pct == 37
Digit(b) == b \in 48 .. 57
Upper(b) == b \in 65 .. 90
Lower(b) == b \in 97 .. 122
Alpha(b) == Upper(b) \/ Lower(b)
Hex(b) == Digit(b) \/ b \in 65 .. 70 \/ b \in 97 .. 102
Val(b) == IF Digit(b) THEN b - 48 ELSE IF Upper(b) THEN b - 55 ELSE b - 87
HexU(n) == IF n < 10 THEN 48 + n ELSE 55 + n
HexL(n) == IF n < 10 THEN 48 + n ELSE 87 + n

RECURSIVE Decode(_)
Decode(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF Head(s) = Pct /\ Len(s) >= 3 THEN
       IF Hex(s[2]) /\ Hex(s[3]) THEN <<16 * Val(s[2]) + Val(s[3])>> \o Decode(SubSeq(s, 4, Len(s)))
       ELSE <<Head(s)>> \o Decode(Tail(s))
  ELSE <<Head(s)>> \o Decode(Tail(s))

(* first position of b in s, 0 if none *)
RECURSIVE Find(_, _, _)
Find(s, b, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = b THEN i ELSE Find(s, b, i + 1)
Upto(s, i) == IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
From(s, i) == IF i = 0 THEN <<>> ELSE SubSeq(s, i, Len(s))
SchemeByte(b) == Alpha(b) \/ Digit(b) \/ b \in {43, 45, 46}
Scheme(s) == s # <<>> /\ Alpha(s[1]) /\ \A i \in DOMAIN s : SchemeByte(s[i])
File == <<102, 105, 108, 101>>

Reject == <<>>
Absolute(p) == p # <<>> /\ p[1] = Slash
(* `//x`, a network root without a path: whether it is taken for a path is left open *)
NetRoot(p) == Len(p) > 2 /\ p[1] = Slash /\ p[2] = Slash /\ Find(p, Slash, 3) = 0
(* the path a URI denotes *)
Resolve(u) ==
  LET c == Find(u, Colon, 1)
      sch == SubSeq(u, 1, c - 1)
      rest == SubSeq(u, c + 1, Len(u))
      auth == Len(rest) >= 2 /\ rest[1] = Slash /\ rest[2] = Slash
      r2 == SubSeq(rest, 3, Len(rest))
      at == Find(r2, Slash, 1)
      a == Decode(Upto(r2, at))
      body == IF auth THEN Decode(From(r2, at)) ELSE Decode(rest)
  IN IF c = 0 THEN Reject
     ELSE IF sch # File \/ ~Absolute(body) THEN Reject
     ELSE IF auth /\ a # <<>> THEN <<Slash, Slash>> \o a \o body
     ELSE body

(* A URI of a path *)
Plain(b) == Alpha(b) \/ Digit(b) \/ b \in {45, 46, 95, 126, Slash}
Escape(b) == <<Pct, HexU(b \div 16), HexU(b % 16)>>
RECURSIVE Encode(_)
Encode(p) == IF p = <<>> THEN <<>> ELSE (IF Plain(Head(p)) THEN <<Head(p)>> ELSE Escape(Head(p))) \o Encode(Tail(p))
UriOf(p) == File \o <<Colon, Slash, Slash>> \o Encode(p)
=============================================================================
