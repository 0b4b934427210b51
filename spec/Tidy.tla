------------------------------- MODULE Tidy --------------------------------
(* What the linter reports.  A program is a list of pieces, written one by    *)
(* one with a separator in and behind each; of each piece it is known what    *)
(* is wrong with it, at which of its tokens, and which edits repair it.  The  *)
(* options decide which of that is printed: what is wrong with the text       *)
(* always is, what is wrong with the names in it where that is asked for.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Pieces,  \* [toks |-> <<..>>, reps |-> <<..>>]; "~" is the separator, places are numbers of tokens before
          Seps,    \* sequences of tokens
          Opts,    \* options
          MaxPieces, MaxOpts,
          Wide,    \* [token |-> bytes] of those written by their names
          Rule     \* "any": an option counts wherever it is; "last": the last one does
VARIABLES opts,    \* given so far
          toks,    \* written so far
          cur,     \* [o |-> offset, l |-> line, c |-> column] behind them
          reps,    \* what is to be reported
          chosen,  \* the piece to be written next
          n, done
vars == <<opts, toks, cur, reps, chosen, n, done>>
Nl == {"<nl>", "<crnl>"}
Bytes(t) == IF t \in DOMAIN Wide THEN Wide[t] ELSE Len(t)
Move(c, t) == [o |-> c.o + Bytes(t), l |-> IF t \in Nl THEN c.l + 1 ELSE c.l, c |-> IF t \in Nl THEN 0 ELSE c.c + Bytes(t)]
RECURSIVE Over(_, _)
Over(c, ts) == IF ts = <<>> THEN c ELSE Over(Move(c, ts[1]), SubSeq(ts, 2, Len(ts)))
RECURSIVE Spread(_, _)
Spread(ts, sep) == IF ts = <<>> THEN <<>> ELSE (IF ts[1] = "~" THEN sep ELSE <<ts[1]>>) \o Spread(SubSeq(ts, 2, Len(ts)), sep)
\* the report r of a piece that begins at c
Placed(p, sep, c, r) ==
  LET at(k) == Over(c, Spread(SubSeq(p.toks, 1, k), sep))
  IN  [n |-> r.n, sev |-> r.sev, tags |-> r.tags, look |-> r.look, args |-> r.args, from |-> at(r.from), to |-> at(r.to),
       notes |-> [i \in 1..Len(r.notes) |-> [n |-> r.notes[i].n, args |-> r.notes[i].args, from |-> at(r.notes[i].from), to |-> at(r.notes[i].to)]],
       fixes |-> [i \in 1..Len(r.fixes) |-> [k \in 1..Len(r.fixes[i]) |-> [from |-> at(r.fixes[i][k].from), to |-> at(r.fixes[i][k].to), new |-> r.fixes[i][k].new]]]]
Init == opts = <<>> /\ toks = <<"[", " ">> /\ cur = [o |-> 2, l |-> 0, c |-> 2] /\ reps = <<>> /\ chosen = <<>> /\ n = 0 /\ done = FALSE
Opt == n = 0 /\ chosen = <<>> /\ ~done /\ Len(opts) < MaxOpts /\ \E o \in Opts : opts' = Append(opts, o) /\ UNCHANGED <<toks, cur, reps, chosen, n, done>>
Choose == ~done /\ chosen = <<>> /\ n < MaxPieces /\ \E p \in Pieces : chosen' = <<p>> /\ UNCHANGED <<opts, toks, cur, reps, n, done>>
Piece == /\ chosen # <<>> /\ n' = n + 1 /\ chosen' = <<>>
         /\ \E s \in Seps :
              LET p == chosen[1]
                  ts == Spread(p.toks, s) \o s
              IN  toks' = toks \o ts /\ cur' = Over(cur, ts) /\ reps' = reps \o [i \in 1..Len(p.reps) |-> Placed(p, s, cur, p.reps[i])]
         /\ UNCHANGED <<opts, done>>
End == ~done /\ chosen = <<>> /\ done' = TRUE /\ toks' = Append(toks, "]") /\ cur' = Move(cur, "]") /\ UNCHANGED <<opts, reps, chosen, n>>
Next == Opt \/ Choose \/ Piece \/ End

Given(os, o) == IF Rule = "last" THEN os # <<>> /\ os[Len(os)] = o ELSE \E i \in 1..Len(os) : os[i] = o
Printed(os) == SelectSeq(reps, LAMBDA r : ~r.look \/ Given(os, "--variable-lookup"))
\* places lie in the text, where lines and columns say
Start(l) == LET ks == {k \in 0..Len(toks) : Over([o |-> 0, l |-> 0, c |-> 0], SubSeq(toks, 1, k)).l = l} IN CHOOSE k \in ks : \A j \in ks : k <= j
Located(x) == x.from.o <= x.to.o /\ x.to.o <= cur.o /\ \A q \in {x.from, x.to} : q.l <= cur.l /\ Over([o |-> 0, l |-> 0, c |-> 0], SubSeq(toks, 1, Start(q.l))).o + q.c = q.o
AllLocated == done => \A i \in 1..Len(reps) : /\ Located(reps[i])
                                              /\ \A k \in 1..Len(reps[i].notes) : Located(reps[i].notes[k])
                                              /\ \A k \in 1..Len(reps[i].fixes) : \A e \in 1..Len(reps[i].fixes[k]) : Located(reps[i].fixes[k][e])
Same(p, q) == \A r \in {p[i] : i \in 1..Len(p)} \cup {q[i] : i \in 1..Len(q)} : Cardinality({i \in 1..Len(p) : p[i] = r}) = Cardinality({i \in 1..Len(q) : q[i] = r})
Reversed(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
OrderFree == done => Same(Printed(opts), Printed(Reversed(opts)))
\* options only add
Grows == done => \A i \in 1..Len(Printed(<<>>)) : \E k \in 1..Len(Printed(opts)) : Printed(opts)[k] = Printed(<<>>)[i]
Emit == done => PrintT("@@" \o ToJson([opts |-> opts, toks |-> toks, reps |-> Printed(opts), all |-> reps, pretty |-> Given(opts, "--pretty-print")]))
=============================================================================
