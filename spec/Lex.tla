-------------------------------- MODULE Lex --------------------------------
(* Nix's lexical grammar in expression state (C07): at every position the
   longest match of the rules below; blanks and comments are dropped.  Each
   rule is its own recogniser; the scanner takes the longest match.  Every
   text over Alphabet is scanned; the real lexer must find the same tokens.

   Named deviations of the implementation, all of them diagnosed by it:
   LenientFloat: leading zeros and a missing exponent or fraction are read as
   one float token and reported.                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Alphabet,   \* single characters
          MaxLen, MinLen

Lower == {"a","b","e","f","n","o","r","i","t","h","l","s","w","c","d","u"}
Digit == {"0", "1", "5"}
Alpha == Lower \cup {"E", "A"}
PathC == Alpha \cup Digit \cup {".", "_", "-", "+"}
IdC == Alpha \cup Digit \cup {"_", "'", "-"}
SchemeC == Alpha \cup Digit \cup {"+", "-", "."}
UriC == Alpha \cup Digit \cup {"%", "/", "?", ":", "@", "&", "=", "+", "$", ",", "-", "_", ".", "!", "~", "*", "'"}
Blank == {" ", "\n", "\t", "\r"}
Keywords == {"if", "then", "else", "assert", "with", "let", "in", "rec", "inherit", "or"}
Ops == {"->", "||", "&&", "==", "!=", "<", ">", "<=", ">=", "//", "+", "-", "*", "/", "++", "|>", "<|",
        "=", "!", "{", "}", "(", ")", "[", "]", ";", ":", ",", "@", "?", ".", "...", "\"", "''", "${"}

VARIABLES seq
At(s, i) == IF i <= Len(s) THEN s[i] ELSE "EOF"
RECURSIVE Span(_, _, _)
Span(s, i, C) == IF At(s, i) \in C THEN 1 + Span(s, i + 1, C) ELSE 0
RECURSIVE Str(_, _, _)
Str(s, i, n) == IF n = 0 THEN "" ELSE s[i] \o Str(s, i + 1, n - 1)

IdLen(s, i) == IF At(s, i) \in Alpha \cup {"_"} THEN Span(s, i, IdC) ELSE 0
(* ([0-9]+ . [0-9]* | . [0-9]+) ([Ee] [+-]? [0-9]* )? *)
ExpLen(s, i) == IF At(s, i) \in {"e", "E"}
                THEN LET j == IF At(s, i + 1) \in {"+", "-"} THEN i + 2 ELSE i + 1
                     IN (j - i) + Span(s, j, Digit)
                ELSE 0
FloatLen(s, i) ==
  LET n == Span(s, i, Digit) IN
  IF At(s, i + n) # "." THEN 0
  ELSE LET m == Span(s, i + n + 1, Digit) IN
       IF n + m = 0 THEN 0 ELSE n + 1 + m + ExpLen(s, i + n + 1 + m)
IntLen(s, i) == Span(s, i, Digit)
(* PATH_CHAR* (/ PATH_CHAR+)+ /?, continued over further segments *)
RECURSIVE Segs(_, _)
Segs(s, i) == IF At(s, i) = "/" /\ At(s, i + 1) \in PathC
              THEN LET n == 1 + Span(s, i + 1, PathC) IN n + Segs(s, i + n) ELSE 0
PathLen(s, i) ==
  LET p == Span(s, i, PathC)
      g == Segs(s, i + p)
  IN IF g = 0 THEN 0
     \* what follows is still the path: its slashes and segments
     ELSE p + g + Span(s, i + p + g, PathC \cup {"/"})
HomeLen(s, i) == IF At(s, i) = "~" /\ Segs(s, i + 1) > 0 THEN 1 + Span(s, i + 1, PathC \cup {"/"}) ELSE 0
(* the start of a path that is followed by an interpolation *)
PathItpLen(s, i) ==
  LET h == IF At(s, i) = "~" /\ At(s, i + 1) = "/" THEN 1 ELSE 0
      p == IF h = 1 THEN 0 ELSE Span(s, i, PathC)
      q == Span(s, i + h + p, PathC \cup {"/"})
  IN IF At(s, i + h + p) = "/" /\ At(s, i + h + p + q) = "$" /\ At(s, i + h + p + q + 1) = "{"
        /\ (Segs(s, i + h + p) > 0 \/ q = 1)
     THEN h + p + q ELSE 0
RECURSIVE SSegs(_, _)
SSegs(s, i) == Segs(s, i)
SPathLen(s, i) ==
  IF At(s, i) # "<" THEN 0
  ELSE LET p == Span(s, i + 1, PathC) IN
       IF p = 0 THEN 0
       ELSE LET g == Segs(s, i + 1 + p) IN IF At(s, i + 1 + p + g) = ">" THEN 2 + p + g ELSE 0
UriLen(s, i) ==
  IF At(s, i) \notin Alpha THEN 0
  ELSE LET p == Span(s, i, SchemeC) IN
       IF At(s, i + p) # ":" THEN 0
       ELSE LET u == Span(s, i + p + 1, UriC) IN IF u = 0 THEN 0 ELSE p + 1 + u
OpLen(s, i) ==
  LET L == {n \in 1 .. 3 : i + n - 1 <= Len(s) /\ Str(s, i, n) \in Ops} IN
  IF L = {} THEN 0 ELSE CHOOSE n \in L : \A m \in L : m <= n

(* Comments: # to the end of the line, or a closed block. *)
RECURSIVE LineEnd(_, _)
LineEnd(s, i) == IF At(s, i) \in {"\n", "\r", "EOF"} THEN i ELSE LineEnd(s, i + 1)
RECURSIVE BlockEnd(_, _)
BlockEnd(s, i) == IF i > Len(s) THEN i
                  ELSE IF s[i] = "*" /\ At(s, i + 1) = "/" THEN i + 2 ELSE BlockEnd(s, i + 1)
RECURSIVE Skip(_, _)
Skip(s, i) == IF At(s, i) \in Blank THEN Skip(s, i + 1)
              ELSE IF At(s, i) = "#" THEN Skip(s, LineEnd(s, i))
              ELSE IF At(s, i) = "/" /\ At(s, i + 1) = "*" THEN Skip(s, BlockEnd(s, i + 2))
              ELSE i

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Token(s, i) ==
  LET id == IdLen(s, i)  fl == FloatLen(s, i)  in == IntLen(s, i)  pa == MaxOf({PathLen(s, i), HomeLen(s, i)})
      pi == PathItpLen(s, i)  sp == SPathLen(s, i)  ur == UriLen(s, i)  op == OpLen(s, i)
      m == MaxOf({id, fl, in, pa, pi, sp, ur, op})
  IN IF m = 0 THEN <<"unknown", i - 1, 1>>
     ELSE IF pi > 0 /\ pi = m THEN <<"pathitp", i - 1, pi>>
     ELSE IF pa = m THEN <<"path", i - 1, m>>
     ELSE IF id = m THEN <<IF Str(s, i, m) \in Keywords THEN Str(s, i, m) ELSE "id", i - 1, m>>
     ELSE IF in = m THEN <<"int", i - 1, m>>
     ELSE IF fl = m THEN <<"float", i - 1, m>>
     ELSE IF sp = m THEN <<"spath", i - 1, m>>
     ELSE IF ur = m THEN <<"uri", i - 1, m>>
     ELSE <<Str(s, i, m), i - 1, m>>

(* The tokens up to the first change of lexer state. *)
RECURSIVE Scan(_, _)
Scan(s, i0) == LET i == Skip(s, i0) IN
  IF i > Len(s) THEN <<>>
  ELSE LET t == Token(s, i) IN
       IF t[1] \in {"\"", "''", "pathitp"} THEN <<t>> ELSE <<t>> \o Scan(s, i + t[3])

Init == seq = <<>>
Next == Len(seq) < MaxLen /\ \E p \in Alphabet : seq' = Append(seq, p)

(* Tokens are in order, do not overlap, and lie in the text. *)
Ordered == LET ts == Scan(seq, 1) IN
  /\ \A k \in DOMAIN ts : ts[k][3] >= 1 /\ ts[k][2] + ts[k][3] <= Len(seq)
  /\ \A k \in 1 .. Len(ts) - 1 : ts[k][2] + ts[k][3] <= ts[k + 1][2]
Emit == Len(seq) >= MinLen => PrintT("@@" \o ToJson([s |-> seq, t |-> Scan(seq, 1)]))
=============================================================================
