------------------------------- MODULE Attrs -------------------------------
(* What an attribute set denotes (C08).  A program is a sequence of items; an
   item binds a path to a leaf, opens a set literal at a path, closes it, or
   inherits names.  Sets are merged as libexpr's ParserState::addAttr does
   it: a path descends into sets already defined and creates the missing
   ones; two set literals at one place are merged, one level deep (the version
   of Nix nixd follows); any other clash is a duplicate and the later
   definition is dropped.  A name is identified by 100 * item + position.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Names,      \* static names
          Styles,     \* how a static name may be written: "id" "str" "itp"
          MaxPath, MaxItems, MinItems, MaxDepth,
          Recs,       \* SUBSET {"", "rec"}: markers of set literals
          Parens,     \* BOOLEAN: literals may be parenthesised
          Inherits    \* BOOLEAN
VARIABLES prog, open
vars == <<prog, open>>

Name == [n : Names, st : Styles] \cup (IF "dyn" \in Styles THEN {[n |-> "x", st |-> "dyn"]} ELSE {})
NameP == {x \in Name : x.st # "dyn" \/ x.n = "x"}
Paths == UNION {[1 .. k -> NameP] : k \in 1 .. MaxPath}

(* -- semantics -- *)
Empty(rec) == [rec |-> rec, st |-> <<>>, dy |-> <<>>]
Has(S, n) == n \in DOMAIN S.st
Put(S, n, a) == [S EXCEPT !.st = [m \in DOMAIN @ \cup {n} |-> IF m = n THEN a ELSE @[m]]]
Leaf(id) == [t |-> "leaf", id |-> id]
SetV(S) == [t |-> "set", s |-> S]
Attr(k, key, v) == [k |-> k, key |-> key, v |-> v]
(* S with Y's attributes added; D accumulates duplicates <<later, earlier>> *)
RECURSIVE MergeNames(_, _, _, _)
MergeNames(S, Y, ns, D) ==
  IF ns = {} THEN [s |-> [S EXCEPT !.dy = @ \o Y.dy], d |-> D]
  ELSE LET n == CHOOSE x \in ns : TRUE IN
       IF Has(S, n) THEN MergeNames(S, Y, ns \ {n}, D \cup {<<Y.st[n].key, S.st[n].key>>})
       ELSE MergeNames(Put(S, n, Y.st[n]), Y, ns \ {n}, D)
IsStatic(nm) == nm.st # "dyn"

(* Adds value V at path p[j ..] of S: [s, d, r], r: rec markers differed *)
RECURSIVE Add(_, _, _, _, _)
Add(S, p, j, i, V) ==
  LET nm == p[j]
      key == 100 * i + j
      res(s, d, r) == [s |-> s, d |-> d, r |-> r]
  IN
  IF j = Len(p) THEN
    IF ~IsStatic(nm) THEN res([S EXCEPT !.dy = Append(@, Attr("p", key, V))], {}, 0)
    ELSE IF ~Has(S, nm.n) THEN res(Put(S, nm.n, Attr("p", key, V)), {}, 0)
    ELSE LET old == S.st[nm.n] IN
         IF old.v.t = "set" /\ V.t = "set"
         THEN LET m == MergeNames(old.v.s, V.s, DOMAIN V.s.st, {})
              IN res(Put(S, nm.n, [old EXCEPT !.v = SetV(m.s)]), m.d, IF old.v.s.rec # V.s.rec THEN 1 ELSE 0)
         ELSE res(S, {<<key, old.key>>}, 0)
  ELSE IF ~IsStatic(nm) THEN
    LET r == Add(Empty(FALSE), p, j + 1, i, V)
    IN res([S EXCEPT !.dy = Append(@, Attr("p", key, SetV(r.s)))], r.d, r.r)
  ELSE IF ~Has(S, nm.n) THEN
    LET r == Add(Empty(FALSE), p, j + 1, i, V)
    IN res(Put(S, nm.n, Attr("p", key, SetV(r.s))), r.d, r.r)
  ELSE LET old == S.st[nm.n] IN
       IF old.v.t # "set" THEN res(S, {<<key, old.key>>}, 0)
       ELSE LET r == Add(old.v.s, p, j + 1, i, V)
            IN res(Put(S, nm.n, [old EXCEPT !.v = SetV(r.s)]), r.d, r.r)

RECURSIVE InheritNames(_, _, _, _, _)
InheritNames(S, it, j, i, D) ==      \* D: [d, b]: duplicates, dynamic names
  IF j > Len(it.names) THEN [s |-> S, d |-> D.d, b |-> D.b]
  ELSE LET nm == it.names[j]  key == 100 * i + j IN
       IF ~IsStatic(nm) THEN InheritNames(S, it, j + 1, i, [D EXCEPT !.b = @ \cup {key}])
       ELSE IF Has(S, nm.n) THEN InheritNames(S, it, j + 1, i, [D EXCEPT !.d = @ \cup {<<key, S.st[nm.n].key>>}])
       ELSE InheritNames(Put(S, nm.n, Attr(IF it.from THEN "f" ELSE "i", key, Leaf(key))), it, j + 1, i, D)

(* The set whose items start at i: its value, where it ends, the reports. *)
RECURSIVE Eval(_, _, _)
Eval(i, S, R) ==                     \* R: [d, r, b]
  IF i > Len(prog) THEN [s |-> S, i |-> i, rep |-> R]
  ELSE LET it == prog[i] IN
  CASE it.t = "close" -> [s |-> S, i |-> i, rep |-> R]
    [] it.t = "leaf" -> LET a == Add(S, it.p, 1, i, Leaf(i))
                        IN Eval(i + 1, a.s, [R EXCEPT !.d = @ \cup a.d, !.r = @ + a.r])
    [] it.t = "inherit" -> LET a == InheritNames(S, it, 1, i, [d |-> {}, b |-> {}])
                           IN Eval(i + 1, a.s, [R EXCEPT !.d = @ \cup a.d, !.b = @ \cup a.b])
    [] it.t = "open" ->
         LET e == Eval(i + 1, Empty(it.rec = "rec"), R)
             a == Add(S, it.p, 1, i, SetV(e.s))
         IN Eval(e.i + 1, a.s, [e.rep EXCEPT !.d = @ \cup a.d, !.r = @ + a.r])
Result == Eval(1, Empty(FALSE), [d |-> {}, r |-> 0, b |-> {}])

(* -- programs -- *)
Init == prog = <<>> /\ open = 0
Step(it) == prog' = Append(prog, it)
LeafAct == \E p \in Paths : Step([t |-> "leaf", p |-> p]) /\ UNCHANGED open
OpenAct == open < MaxDepth /\ open' = open + 1
           /\ \E p \in Paths, r \in Recs, q \in (IF Parens THEN BOOLEAN ELSE {FALSE}) : Step([t |-> "open", p |-> p, rec |-> r, par |-> q])
CloseAct == open > 0 /\ open' = open - 1 /\ Step([t |-> "close"])
InheritAct == Inherits /\ \E ns \in UNION {[1 .. k -> NameP] : k \in 1 .. 2}, f \in BOOLEAN :
                Step([t |-> "inherit", names |-> ns, from |-> f]) /\ UNCHANGED open
Room(n) == Len(prog) + open + n <= MaxItems
Next == \/ Room(1) /\ LeafAct
        \/ Room(1) /\ InheritAct
        \/ Room(2) /\ OpenAct
        \/ CloseAct

(* Every attribute has one definition; what is not reported is defined. *)
RECURSIVE Keys(_)
Keys(S) == LET sub(a) == {a.key} \cup (IF a.v.t = "set" THEN Keys(a.v.s) ELSE {})
           IN UNION ({sub(S.st[n]) : n \in DOMAIN S.st} \cup {sub(S.dy[k]) : k \in 1 .. Len(S.dy)})
Sound == open = 0 => \A d \in Result.rep.d : d[1] # d[2] /\ d[1] \notin Keys(Result.s)
(* Nothing is lost: each written leaf is in the value or one of its path's names is reported. *)
LastKeys == {100 * i + Len(prog[i].p) : i \in {k \in DOMAIN prog : prog[k].t = "leaf"}}
Complete == (open = 0 /\ Result.rep.d = {}) => LastKeys \subseteq Keys(Result.s)
Emit == (open = 0 /\ Len(prog) >= MinItems) =>
        PrintT("@@" \o ToJson([p |-> prog, s |-> Result.s, d |-> Result.rep.d, r |-> Result.rep.r, b |-> Result.rep.b]))
=============================================================================
