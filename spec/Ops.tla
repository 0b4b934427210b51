------------------------------- MODULE Ops --------------------------------
(* How Nix groups operators (C06).  The state machine is the shift/reduce
   parser that Nix's published precedence table denotes: an operand or prefix
   operator is shifted; before an infix operator is shifted every pending
   operator that binds tighter (or as tight and is left-associative) is
   reduced; equal non-associative operators are an error.  Every behaviour
   that ends in Finish is one expression together with its grouping.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxInfix,     \* infix operators per expression
          MaxPrefix,    \* prefix operators per expression
          Infix,        \* infix operators used (a subset of InfixOps)
          Forms,        \* operand forms used (a subset of OperandForms)
          PipeDeviation \* TRUE: <| and |> associate as the repository's own
                        \* tests pin them (see known-findings.json)

InfixOps == {"|>", "<|", "->", "||", "&&", "==", "!=", "<", ">", "<=", ">=",
             "//", "+", "-", "*", "/", "++", "?"}

Prec(o) ==
  CASE o \in {"|>", "<|"} -> 1
    [] o = "->" -> 2
    [] o = "||" -> 3
    [] o = "&&" -> 4
    [] o \in {"==", "!="} -> 5
    [] o \in {"<", ">", "<=", ">="} -> 6
    [] o = "//" -> 7
    [] o = "NOT" -> 8
    [] o \in {"+", "-"} -> 9
    [] o \in {"*", "/"} -> 10
    [] o = "++" -> 11
    [] o = "?" -> 12
    [] o = "NEGATE" -> 13

Assoc(o) ==
  CASE o \in {"->", "//", "++"} -> "right"
    [] o = "|>" -> IF PipeDeviation THEN "right" ELSE "left"
    [] o = "<|" -> IF PipeDeviation THEN "left" ELSE "right"
    [] o \in {"==", "!=", "<", ">", "<=", ">=", "?"} -> "none"
    [] OTHER -> "left"

(* Does a pending operator p reduce before an incoming operator o? *)
Reduces(p, o) == \/ Prec(p) > Prec(o)
                 \/ Prec(p) = Prec(o) /\ p = o /\ Assoc(o) = "left"
                 \/ Prec(p) = Prec(o) /\ p # o /\ Assoc(o) = "left" /\ Assoc(p) = "left"
Clashes(p, o) == Prec(p) = Prec(o) /\ (Assoc(o) = "none" \/ Assoc(p) # Assoc(o))

Names == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j">>

VARIABLES toks,    \* tokens written so far
          pend,    \* pending operators: <<[op, lhs]>>, lhs = "" for prefix
          cur,     \* the operand just completed
          mode,    \* "operand", "operator" or "done"
          nin, npre, nop, err
vars == <<toks, pend, cur, mode, nin, npre, nop, err>>

Init == /\ toks = <<>> /\ pend = <<>> /\ cur = "" /\ mode = "operand"
        /\ nin = 0 /\ npre = 0 /\ nop = 0 /\ err = FALSE

(* Reduce the pending operators that bind tighter than o. *)
RECURSIVE Reduced(_, _, _)
Reduced(st, x, o) ==
  IF st = <<>> THEN <<st, x>>
  ELSE LET top == st[Len(st)]
           rest == SubSeq(st, 1, Len(st) - 1)
       IN IF o = "END" \/ Reduces(top.op, o)
          THEN Reduced(rest, IF top.lhs = "" THEN "(" \o top.op \o " " \o x \o ")"
                             ELSE "(" \o top.op \o " " \o top.lhs \o " " \o x \o ")", o)
          ELSE <<st, x>>

OperandForms == {"var", "call", "select", "selor", "paren", "list", "int", "str", "attrs"}

Prefix(o) ==
  /\ mode = "operand" /\ npre < MaxPrefix
  /\ toks' = Append(toks, IF o = "NOT" THEN "!" ELSE "-")
  /\ pend' = Append(pend, [op |-> o, lhs |-> ""])
  /\ npre' = npre + 1
  /\ UNCHANGED <<cur, mode, nin, nop, err>>

Operand(f) ==
  LET n == Names[nop + 1] IN
  /\ mode = "operand"
  /\ toks' = toks \o (CASE f = "var" -> <<n>>
                       [] f = "call" -> <<n, "x", "y">>
                       [] f = "select" -> <<n, ".", "x">>
                       [] f = "selor" -> <<n, "x", ".", "y", "or", "z">>
                       [] f = "paren" -> <<"(", n, "x", ")">>
                       [] f = "list" -> <<"[", n, "x", "]">>
                       [] f = "int" -> <<"1">>
                       [] f = "str" -> <<"\"", n, "\"">>
                       [] f = "attrs" -> <<"{", n, "=", "x", ";", "}">>)
  /\ cur' = (CASE f = "var" -> n
              [] f = "call" -> "(call " \o n \o " x y)"
              [] f = "select" -> "(sel " \o n \o " x)"
              [] f = "selor" -> "(call " \o n \o " (selor x y z))"
              [] f = "paren" -> "(paren (call " \o n \o " x))"
              [] f = "list" -> "(list " \o n \o " x)"
              [] f = "int" -> "1"
              [] f = "str" -> "(str)"
              [] f = "attrs" -> "(attrs (bind " \o n \o " x))")
  /\ mode' = "operator" /\ nop' = nop + 1
  /\ UNCHANGED <<pend, nin, npre, err>>

InfixOp(o) ==
  /\ mode = "operator" /\ nin < MaxInfix
  /\ LET r == Reduced(pend, cur, o)
         clash == r[1] # <<>> /\ Clashes(r[1][Len(r[1])].op, o)
     IN IF o = "?"
        THEN \* the right operand is an attribute path
             LET n == Names[nop + 1] IN
             /\ toks' = toks \o <<"?", n>>
             /\ pend' = r[1]
             /\ cur' = "(? " \o r[2] \o " " \o n \o ")"
             /\ nop' = nop + 1
             /\ mode' = "operator"
             \* the right side is no expression, so x ? y ? z is (x ? y) ? z
             \* although Nix's table calls ? non-associative
             /\ err' = (err \/ clash)
        ELSE /\ toks' = Append(toks, o)
             /\ pend' = Append(r[1], [op |-> o, lhs |-> r[2]])
             /\ cur' = "" /\ mode' = "operand"
             /\ err' = (err \/ clash)
             /\ UNCHANGED nop
  /\ nin' = nin + 1
  /\ UNCHANGED npre

Finish ==
  /\ mode = "operator"
  /\ mode' = "done"
  /\ cur' = Reduced(pend, cur, "END")[2]
  /\ pend' = <<>>
  /\ UNCHANGED <<toks, nin, npre, nop, err>>

Next == \/ \E o \in {"NOT", "NEGATE"} : Prefix(o)
        \/ \E f \in Forms : Operand(f)
        \/ \E o \in Infix : InfixOp(o)
        \/ Finish

(* A pending operator never binds looser than the one it is pending under,
   unless a prefix operator stands between them. *)
StackOrdered ==
  \A i \in 1 .. Len(pend) - 1 :
     pend[i + 1].lhs # "" => Prec(pend[i].op) <= Prec(pend[i + 1].op)
TypeOK == /\ mode \in {"operand", "operator", "done"}
          /\ mode = "done" => pend = <<>>

Emit == mode = "done" => PrintT("@@" \o ToJson([toks |-> toks, tree |-> cur, err |-> err]))
==========================================================================
