------------------------------ MODULE Formals ------------------------------
(* Function parameter lists (C09).  A list is a sequence of tokens between the
   braces.  Reports says which violations of Nix's rules there are and where;
   Accepts is Nix's grammar, written independently: TLC checks that a list has
   a report exactly if the grammar rejects it.                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Ids,        \* parameter names
          MaxLen, MinLen,
          AtNames,    \* names used in @-patterns
          Defs,       \* whether parameters may have defaults: subset of BOOLEAN
          MaxRep      \* violations per list
VARIABLES toks, at
vars == <<toks, at>>

Tok == {[t |-> "id", n |-> n, d |-> d] : n \in Ids, d \in Defs} \cup {[t |-> "comma"], [t |-> "ell"]}
At == {[side |-> "none"]} \cup {[side |-> s, n |-> n] : s \in {"pre", "post", "both"}, n \in AtNames}

(* formals : formal "," formals | formal | empty | "..." *)
RECURSIVE Accepts(_)
Accepts(i) == \/ i > Len(toks)
              \/ i = Len(toks) /\ toks[i].t = "ell"
              \/ toks[i].t = "id" /\ (i = Len(toks) \/ (toks[i + 1].t = "comma" /\ Accepts(i + 2)))

(* Parameters as written: each with the comma before it, if any. *)
RECURSIVE Items(_)
Items(i) ==
  IF i > Len(toks) THEN <<>>
  ELSE IF toks[i].t # "comma" THEN <<[comma |-> FALSE, t |-> toks[i].t, at |-> i, id |-> i]>> \o Items(i + 1)
  ELSE IF i < Len(toks) /\ toks[i + 1].t # "comma"
       THEN <<[comma |-> TRUE, t |-> toks[i + 1].t, at |-> i, id |-> i + 1]>> \o Items(i + 2)
       ELSE <<[comma |-> TRUE, t |-> "empty", at |-> i, id |-> i]>> \o Items(i + 1)

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
(* <<kind, token, token referred to or 0>> *)
Reports ==
  LET it == Items(1)
      n == Len(it)
      full == {k \in 1 .. n : it[k].t # "empty"}
      last == IF full = {} THEN 0 ELSE MaxOf(full)
      lastEll == last > 0 /\ it[last].t = "ell"
      ids == {k \in 1 .. n : it[k].t = "id"}
      name(k) == toks[it[k].id].n
      first(k) == CHOOSE j \in ids : name(j) = name(k) /\ \A m \in ids : name(m) = name(k) => j <= m
  IN {<<"missing-comma", it[k].at, 0>> : k \in {k \in 2 .. n : ~it[k].comma}}
     \cup {<<IF lastEll THEN "extra-ellipsis" ELSE "misplaced-ellipsis", it[k].at, 0>> : k \in {k \in 1 .. n : it[k].t = "ell" /\ (k # last \/ ~lastEll)}}
     \cup {<<"empty", it[k].at, 0>> : k \in {k \in 1 .. n : \/ (it[k].t = "empty" /\ k < n)
                                                          \/ (k = 1 /\ it[k].comma)
                                                          \/ (it[k].t = "empty" /\ k = n /\ lastEll)}}
     \cup {<<"dup", it[k].id, it[first(k)].id>> : k \in {k \in ids : first(k) # k}}
     \cup {<<"dup-arg", 0, it[first(k)].at>> : k \in {k \in ids : at.side # "none" /\ name(k) = at.n}}

NoDup == \A i, j \in DOMAIN toks : (i # j /\ toks[i].t = "id" /\ toks[j].t = "id") => toks[i].n # toks[j].n
NoClash == at.side = "none" \/ \A i \in DOMAIN toks : toks[i].t = "id" => toks[i].n # at.n
(* names bound: the first parameter of each name, and the @-name *)
Bound == {i \in DOMAIN toks : toks[i].t = "id" /\ \A j \in 1 .. i - 1 : toks[j].t = "id" => toks[j].n # toks[i].n}

(* The parser decides by a few tokens that this is a function, not a set. *)
Function == LET T(i) == IF i <= Len(toks) THEN toks[i].t ELSE "close" IN
  \/ at.side = "pre" \/ at.side = "both"
  \/ T(1) \in {"ell", "id"} \/ T(1) = "close"

Init == toks = <<>> /\ at \in At
Next == Len(toks) < MaxLen /\ \E t \in Tok : toks' = Append(toks, t) /\ UNCHANGED at
(* reports do not go away when a list grows, so this loses no list *)
Few == Cardinality(Reports) <= MaxRep

Agree == (Reports = {}) <=> (Accepts(1) /\ NoDup /\ NoClash)
Emit == Len(toks) >= MinLen => PrintT("@@" \o ToJson([toks |-> toks, at |-> at, rep |-> Reports, bound |-> Bound, fn |-> Function, ok |-> Reports = {} /\ at.side # "both"]))
=============================================================================
