---------------------------- MODULE CompleteList ----------------------------
(* The answer to a completion request (C20): names of the scopes, then what the
   workers answer, one source after the other, until the list is full.
   An option that comes with an example and a default gives an item for each. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Limit,       \* how many items there are at most
          Kinds,       \* kinds of items a worker answers
          Scoped,      \* how many names of scopes match
          Lengths,     \* how many of the kinds before the last ones
          Fill,        \* which kind these are (n or p by default)
          Free,        \* how many kinds are chosen freely
          Where        \* var, select, option, and without a prefix dot, hole
VARIABLES where, scoped, fields, tail, src, at, items, full
vars == <<where, scoped, fields, tail, src, at, items, full>>

(* what a field gives.  Packages: p (an identifier), q (needs quotes: no variable), x (doesn't match),
   o (as a name of the scopes, which shadows it).
   Options: a (a set), n (no value), e (an example), d (a default), b (both), s (both the same), m (no type);
   A, E, B: the same, and the name needs quotes *)
Packages == {"p", "q", "x", "o"}
Words == {"r", "z"}         \* keywords and the like, no name at all
Opt(w) == w \in {"option", "hole"}
ItemsOf(w, f) == CASE f \in {"x", "z"} -> 0 [] f = "q" -> IF w = "var" THEN 0 ELSE 1 [] f = "o" -> IF scoped > 0 THEN 0 ELSE 1
                   [] f \in {"b", "B"} -> 2 [] OTHER -> 1
Of(w) == ((IF w \in {"dot", "hole"} THEN Kinds \cap Words ELSE {}) \cup (IF Opt(w) THEN Kinds \ (Packages \cup Words) ELSE Kinds \cap Packages)) \ (IF \E k \in DOMAIN fields : fields[k] = "o" THEN {"o"} ELSE {})
Init == /\ where \in Where /\ scoped \in (IF where = "var" THEN Scoped ELSE {0})
        /\ \E n \in Lengths : fields = [k \in 1..n |-> IF Fill # "" THEN Fill ELSE IF Opt(where) THEN "n" ELSE "p"]
        /\ tail = 0 /\ src = "choose" /\ at = 1 /\ items = <<>> /\ full = FALSE
Choose == /\ src = "choose"
          /\ \/ tail < Free /\ \E f \in Of(where) : fields' = Append(fields, f) /\ tail' = tail + 1 /\ src' = src
             \/ src' = "scopes" /\ UNCHANGED <<fields, tail>>
          /\ UNCHANGED <<where, scoped, at, items, full>>
Add(x) == IF Len(items) = Limit THEN full' = TRUE /\ items' = items ELSE items' = Append(items, x) /\ UNCHANGED full
Scopes == /\ src = "scopes" /\ ~full
          /\ IF at <= scoped THEN Add(<<"scope", at, 1>>) /\ at' = at + 1 /\ src' = src
             ELSE src' = "worker" /\ at' = 1 /\ UNCHANGED <<items, full>>
          /\ UNCHANGED <<where, scoped, fields, tail>>
(* at: position among all the items the worker's answer gives *)
RECURSIVE Count(_, _)
Count(w, fs) == IF fs = <<>> THEN 0 ELSE ItemsOf(w, fs[1]) + Count(w, SubSeq(fs, 2, Len(fs)))
RECURSIVE Nth(_, _, _)
Nth(w, k, i) == LET n == ItemsOf(w, fields[i]) IN IF k <= n THEN <<"field", i, k>> ELSE Nth(w, k - n, i + 1)
Worker == /\ src = "worker" /\ ~full /\ at <= Count(where, fields)
          /\ Add(Nth(where, at, 1)) /\ at' = at + 1 /\ UNCHANGED <<where, scoped, fields, tail, src>>
Next == Choose \/ Scopes \/ Worker
Spec == Init /\ [][Next]_vars
Total == scoped + Count(where, fields)
Done == full \/ (src = "worker" /\ at > Count(where, fields))
(* what is offered if there were no limit *)
AllItems == [k \in 1..Total |-> IF k <= scoped THEN <<"scope", k, 1>> ELSE Nth(where, k - scoped, 1)]
(* At most Limit items, none of them twice, and incomplete exactly if some are left out. *)
Sound == /\ Len(items) <= Limit
         /\ Cardinality({items[k] : k \in DOMAIN items}) = Len(items)
         /\ Done => items = SubSeq(AllItems, 1, Len(items)) /\ (full = (Total > Limit) /\ Len(items) = IF full THEN Limit ELSE Total)
Emit == Done => PrintT("@@" \o ToJson([w |-> where, scoped |-> scoped, fields |-> fields, items |-> items, inc |-> full, all |-> AllItems]))
=============================================================================
