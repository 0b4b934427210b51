------------------------------ MODULE JsonText -----------------------------
(* JSON texts with their values (C16), and texts that are nearly JSON.

   A text is a sequence of tokens.  The generator follows the grammar, but may
   insert or leave out tokens up to Faults times; Parse is an independent
   reading of RFC 8259 that decides whether a text is JSON and what it denotes.
   TLC checks that texts without faults are JSON, and that JSON texts determine
   their value uniquely (Write(Parse) = text).                              *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Atoms,    \* [t |-> text, v |-> value]; v[1] = "bad" for no JSON
          Strings,  \* atoms that may be keys
          MaxLen, MinLen, Faults
VARIABLES toks, st, nf, at
vars == <<toks, st, nf, at>>

P(t) == [t |-> t, v |-> <<"punct">>]
Puncts == {P("["), P("]"), P("{"), P("}"), P(","), P(":")}
Last(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)

----------------------------------------------------------------------------
(* reading *)
BAD == [ok |-> FALSE, i |-> 0, v |-> <<"bad">>]
RECURSIVE Val(_, _), Elems(_, _, _), Members(_, _, _)
Is(s, i, t) == i <= Len(s) /\ s[i].t = t /\ s[i].v[1] = "punct"
Val(s, i) ==
  IF i > Len(s) THEN BAD
  ELSE IF Is(s, i, "[") THEN (IF Is(s, i + 1, "]") THEN [ok |-> TRUE, i |-> i + 2, v |-> <<"arr", <<>>>>] ELSE Elems(s, i + 1, <<>>))
  ELSE IF Is(s, i, "{") THEN (IF Is(s, i + 1, "}") THEN [ok |-> TRUE, i |-> i + 2, v |-> <<"obj", <<>>>>] ELSE Members(s, i + 1, <<>>))
  ELSE IF s[i].v[1] \in {"punct", "bad"} THEN BAD
  ELSE [ok |-> TRUE, i |-> i + 1, v |-> s[i].v]
Elems(s, i, acc) ==
  LET x == Val(s, i) IN
  IF ~x.ok THEN BAD
  ELSE IF Is(s, x.i, "]") THEN [ok |-> TRUE, i |-> x.i + 1, v |-> <<"arr", Append(acc, x.v)>>]
  ELSE IF Is(s, x.i, ",") THEN Elems(s, x.i + 1, Append(acc, x.v))
  ELSE BAD
Members(s, i, acc) ==
  IF i > Len(s) \/ ~Is(s, i + 1, ":") THEN BAD
  ELSE IF s[i].v[1] # "str" THEN BAD
  ELSE LET x == Val(s, i + 2) IN
    IF ~x.ok THEN BAD
    ELSE IF Is(s, x.i, "}") THEN [ok |-> TRUE, i |-> x.i + 1, v |-> <<"obj", Append(acc, <<s[i].v, x.v>>)>>]
    ELSE IF Is(s, x.i, ",") THEN Members(s, x.i + 1, Append(acc, <<s[i].v, x.v>>))
    ELSE BAD
Parse(s) == LET x == Val(s, 1) IN IF x.ok /\ x.i = Len(s) + 1 THEN x.v ELSE <<"bad">>

----------------------------------------------------------------------------
(* writing: st is a stack of what may come *)
Allowed(m) ==
  CASE m = "V" -> Atoms \cup {P("["), P("{")}
    [] m = "V]" -> Atoms \cup {P("["), P("{"), P("]")}
    [] m = ",]" -> {P(","), P("]")}
    [] m = "K}" -> Strings \cup {P("}")}
    [] m = "K" -> Strings
    [] m = ":" -> {P(":")}
    [] m = ",}" -> {P(","), P("}")}
After(s, tok) ==
  LET m == Last(s)  r == Pop(s) IN
  CASE m \in {"V", "V]"} /\ tok = P("[") -> Append(r, "V]")
    [] m \in {"V", "V]"} /\ tok = P("{") -> Append(r, "K}")
    [] m = "V]" /\ tok = P("]") -> r
    [] m = "V" -> r
    [] m = "V]" -> Append(r, ",]")
    [] m = ",]" -> (IF tok = P("]") THEN r ELSE r \o <<",]", "V">>)
    [] m \in {"K}", "K"} -> (IF tok = P("}") THEN r ELSE Append(r, ":"))
    [] m = ":" -> r \o <<",}", "V">>
    [] m = ",}" -> (IF tok = P("}") THEN r ELSE Append(r, "K"))
\* an element opened by "V]" leaves ",]" below it
Step(s, tok) == IF Last(s) = "V]" /\ tok \in {P("["), P("{")} THEN Pop(s) \o <<",]", IF tok = P("[") THEN "V]" ELSE "K}">> ELSE After(s, tok)
Legal(m, a) == a.v[1] # "bad" /\ (m \in {"K", "K}"} => a.v[1] \in {"str", "punct"})

Init == toks \in {<<P("[")>>, <<P("{")>>} /\ st = (IF toks[1] = P("[") THEN <<"V]">> ELSE <<"K}">>) /\ nf = 0 /\ at = 0
Next ==
  \/ st # <<>> /\ Len(toks) < MaxLen /\ \E a \in Allowed(Last(st)) :
       /\ LET bad == ~Legal(Last(st), a) IN
          /\ nf + (IF bad THEN 1 ELSE 0) <= Faults
          /\ nf' = nf + (IF bad THEN 1 ELSE 0)
       /\ toks' = Append(toks, a) /\ st' = Step(st, a) /\ at' = 0
  \/ nf < Faults /\ Len(toks) < MaxLen /\ nf' = nf + 1 /\ at' = 1 /\ at = 0
     /\ \/ \E a \in Atoms \cup Puncts : toks' = Append(toks, a) /\ st' = st
        \/ st # <<>> /\ \E a \in Allowed(Last(st)) : st' = Step(st, a) /\ toks' = toks

Value == Parse(toks)
Sound == st = <<>> /\ nf = 0 => Value # <<"bad">>
RECURSIVE Write(_)
RECURSIVE WriteAll(_, _)
Write(v) == IF v[1] = "arr" THEN <<"[">> \o WriteAll(v, 1) \o <<"]">>
            ELSE IF v[1] = "obj" THEN <<"{">> \o WriteAll(v, 1) \o <<"}">>
            ELSE <<"atom">>
WriteAll(v, i) ==
  IF i > Len(v[2]) THEN <<>>
  ELSE (IF v[1] = "obj" THEN <<"atom", ":">> \o Write(v[2][i][2]) ELSE Write(v[2][i])) \o (IF i < Len(v[2]) THEN <<",">> ELSE <<>>) \o WriteAll(v, i + 1)
Unique == st = <<>> /\ nf = 0 => Write(Value) = [i \in 1..Len(toks) |-> IF toks[i].v[1] = "punct" THEN toks[i].t ELSE "atom"]
Emit == (st = <<>> /\ Len(toks) >= MinLen) => PrintT("@@" \o ToJson([toks |-> [i \in 1..Len(toks) |-> <<toks[i].t, toks[i].v[1]>>], v |-> Value]))
=============================================================================
