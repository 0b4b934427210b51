------------------------------ MODULE JsonLex ------------------------------
(* Numbers and strings of JSON (C16): all texts over an alphabet, with whether
   they are JSON tokens.  Numbers follow the automaton of RFC 8259; a string
   denotes the concatenation of what its pieces denote.                      *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Pieces,   \* [t |-> text, v |-> value as a sequence, ok, c |-> class for numbers]
          MaxLen, MinLen, Kind
VARIABLES seq
Init == seq = <<>>
Next == Len(seq) < MaxLen /\ \E p \in Pieces : seq' = Append(seq, p)

(* -?(0|[1-9][0-9]* )(\.[0-9]+)?([eE][+-]?[0-9]+)? *)
Delta(q, c) ==
  CASE q = "s" /\ c = "-" -> "m"
    [] q \in {"s", "m"} /\ c = "0" -> "z"
    [] q \in {"s", "m"} /\ c = "d" -> "i"
    [] q = "i" /\ c \in {"0", "d"} -> "i"
    [] q \in {"z", "i"} /\ c = "." -> "p"
    [] q \in {"p", "f"} /\ c \in {"0", "d"} -> "f"
    [] q \in {"z", "i", "f"} /\ c = "e" -> "e"
    [] q = "e" /\ c \in {"+", "-"} -> "g"
    [] q \in {"e", "g", "x"} /\ c \in {"0", "d"} -> "x"
    [] OTHER -> "bad"
RECURSIVE Run(_, _)
Run(q, i) == IF i > Len(seq) THEN q ELSE Run(Delta(q, seq[i].c), i + 1)
NumOk == Run("s", 1) \in {"z", "i", "f", "x"}
StrOk == \A i \in 1..Len(seq) : seq[i].ok
RECURSIVE Cat(_)
Cat(i) == IF i > Len(seq) THEN <<>> ELSE seq[i].v \o Cat(i + 1)
RECURSIVE Txt(_)
Txt(i) == IF i > Len(seq) THEN "" ELSE seq[i].t \o Txt(i + 1)
Emit == Len(seq) >= MinLen => PrintT("@@" \o ToJson(
   IF Kind = "num" THEN [t |-> Txt(1), ok |-> NumOk, v |-> <<>>] ELSE [t |-> Txt(1), ok |-> StrOk, v |-> Cat(1)]))
=============================================================================
