-------------------------------- MODULE Utf --------------------------------
(* Text in three views: characters, UTF-16 code units (what LSP positions and
   clients count) and UTF-8 bytes (what the server holds); positions in each.
   TLC's strings are limited to ASCII, so wide characters have names here:
   %%e%% = U+E9, %%l%% = U+3BB, %%u%% = U+20AC, %%z%% = U+4E2D, %%g%% = U+1D11E,
   %%s%% = U+1F600; the driver translates.                                    *)
EXTENDS Integers, Sequences, TLC
Two == {"%%e%%", "%%l%%"}
Three == {"%%u%%", "%%z%%"}
Four == {"%%g%%", "%%s%%"}
Multi == Two \cup Three \cup Four
NL == "\n"
Bytes8(c) == CASE c \in Two -> <<c \o "1", c \o "2">> [] c \in Three -> <<c \o "1", c \o "2", c \o "3">>
               [] c \in Four -> <<c \o "1", c \o "2", c \o "3", c \o "4">> [] OTHER -> <<c>>
Units16(c) == IF c \in Four THEN <<c \o "H", c \o "L">> ELSE <<c>>
RECURSIVE U8(_), U16(_), Str(_)
U8(t) == IF t = <<>> THEN <<>> ELSE Bytes8(Head(t)) \o U8(Tail(t))
U16(t) == IF t = <<>> THEN <<>> ELSE Units16(Head(t)) \o U16(Tail(t))
Str(t) == IF t = <<>> THEN "" ELSE Head(t) \o Str(Tail(t))

Firsts(n) == CASE n = 2 -> {c \o "1" : c \in Two} [] n = 3 -> {c \o "1" : c \in Three} [] n = 4 -> {c \o "1" : c \in Four}
Conts == {c \o k : c \in Multi, k \in {"2", "3", "4"}}
(* length of the character a byte begins; continuation bytes begin none *)
Lead(b) == IF b \in Firsts(2) THEN 2 ELSE IF b \in Firsts(3) THEN 3 ELSE IF b \in Firsts(4) THEN 4 ELSE IF b \in Conts THEN 0 ELSE 1
CharOf(b) == IF Lead(b) = 1 THEN b ELSE CHOOSE c \in Multi : b = c \o "1"
RECURSIVE Decode8(_)
Decode8(b) == IF b = <<>> THEN <<>> ELSE <<CharOf(b[1])>> \o Decode8(SubSeq(b, 1 + Lead(b[1]), Len(b)))
RECURSIVE Decode16(_)
Decode16(u) == IF u = <<>> THEN <<>>
               ELSE LET hs == {c \in Four : u[1] = c \o "H"} IN
                    IF hs = {} THEN <<u[1]>> \o Decode16(Tail(u))
                    ELSE <<CHOOSE c \in hs : TRUE>> \o Decode16(SubSeq(u, 3, Len(u)))
Low(x) == \E c \in Four : x = c \o "L"

RECURSIVE CountNL(_, _)
CountNL(s, n) == IF n = 0 THEN 0 ELSE CountNL(s, n - 1) + (IF s[n] = NL THEN 1 ELSE 0)
RECURSIVE LastNL(_, _)
LastNL(s, n) == IF n = 0 THEN 0 ELSE IF s[n] = NL THEN n ELSE LastNL(s, n - 1)
RECURSIVE NextNL(_, _)       \* offset of the first NL from offset n on, -1 if none
NextNL(s, n) == IF n >= Len(s) THEN -1 ELSE IF s[n + 1] = NL THEN n ELSE NextNL(s, n + 1)
RECURSIVE LineStart(_, _)    \* offset of line l, -1 if there is none
LineStart(s, l) == IF l = 0 THEN 0 ELSE LET p == LineStart(s, l - 1) IN
                   IF p = -1 THEN -1 ELSE LET n == NextNL(s, p) IN IF n = -1 THEN -1 ELSE n + 1
LineEnd(s, o) == LET n == NextNL(s, o) IN IF n = -1 THEN Len(s) ELSE n

----------------------------------------------------------------------------
(* The client: an offset in code units, and its position *)
Pos16(u, o) == <<CountNL(u, o), o - LastNL(u, o)>>
(* "none" is -1: no such line, beyond the end of the line, inside a character *)
Off16(u, p) ==
  IF p[1] < 0 \/ p[2] < 0 THEN -1
  ELSE LET s == LineStart(u, p[1]) IN
    IF s = -1 THEN -1
    ELSE LET o == s + p[2] IN
      IF o > LineEnd(u, s) \/ (o < Len(u) /\ Low(u[o + 1])) THEN -1 ELSE o

----------------------------------------------------------------------------
(* The server: walks the bytes of the line, character by character.
   lax: beyond the end of the line is the end of the line.                   *)
RECURSIVE Walk(_, _, _, _, _)
Walk(b, o, e, n, lax) ==
  IF n = 0 THEN o
  ELSE IF o >= e THEN (IF lax THEN e ELSE -1)
  ELSE LET l == Lead(b[o + 1])  k == IF l = 4 THEN 2 ELSE 1 IN
       IF k > n THEN (IF lax THEN o + l ELSE -1) ELSE Walk(b, o + l, e, n - k, lax)
Off8(b, p, lax) ==
  IF p[1] < 0 \/ p[2] < 0 THEN -1
  ELSE LET s == LineStart(b, p[1]) IN IF s = -1 THEN -1 ELSE Walk(b, s, LineEnd(b, s), p[2], lax)
RECURSIVE Count16(_)
Count16(b) == IF b = <<>> THEN 0 ELSE (IF Lead(b[1]) = 4 THEN 2 ELSE 1) + Count16(SubSeq(b, 1 + Lead(b[1]), Len(b)))
Pos8(b, o) == LET s == LastNL(b, o) IN <<CountNL(b, o), Count16(SubSeq(b, s + 1, o))>>
=============================================================================
