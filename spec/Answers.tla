------------------------------ MODULE Answers ------------------------------
(* What workers know about a package or an option, and what the user is      *)
(* shown of it.  A field of an answer is absent, empty, or has a text (which *)
(* the replay makes up; here it is named by its field).                      *)
(* Workers are asked one after another; each knows the option or answers by  *)
(* an error.                                                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Kind,     \* "package" or "option"
          Omit      \* "askOn": a worker that does not know ends the search;
                    \* "declareOnce": only the first worker's declarations count;
                    \* "fallBack": a position that is no location hides the value's own
Field == {"absent", "empty", "given"}
Optional == {"absent", "given"}

(* ------------------------------ packages -------------------------------- *)
\* a position as nixpkgs writes it: file:line, and what else may be there
Positions == {"absent", "empty", "line", "file", "colons", "relative", "word", "noline"}
Values == {[doc |-> d, arity |-> a, args |-> n] : d \in {"empty", "given"}, a \in {0, 2}, n \in 0..2} \cup {[doc |-> "none", arity |-> 0, args |-> 0]}
Packages == [name : Field, home : Field, desc : Field, long : Field, version : Field, pos : Positions, value : Values, loc : Optional]
\* a package the worker does not know
Nobody == [name |-> "unknown", home |-> "absent", desc |-> "absent", long |-> "absent", version |-> "absent", pos |-> "absent",
           value |-> [doc |-> "none", arity |-> 0, args |-> 0], loc |-> "absent"]
Has(f) == f = "given"
When(c, s) == IF c THEN s ELSE <<>>
\* what hovering shows, in this order
PackageHover(p) == When(Has(p.name), <<"name">>) \o When(Has(p.home), <<"home">>) \o When(Has(p.desc), <<"desc">>) \o When(Has(p.long), <<"long">>)
                   \o When(Has(p.value.doc), <<"doc">>) \o When(p.value.arity # 0, <<"arity">>) \o [i \in 1..p.value.args |-> <<"arg1", "arg2">>[i]]
PackageHint(p) == When(Has(p.version), <<"version">>)
PackageResolve(p) == When(Has(p.desc), <<"desc">>) \o When(Has(p.long), <<"long">>)
\* a location is an absolute path; a number after the last colon is its line
IsLocation(x) == x \in {"line", "file", "colons", "noline"}
PackageDefinition(p) == IF IsLocation(p.pos) THEN <<p.pos>>
                        ELSE IF p.loc = "given" /\ ~(Omit = "fallBack" /\ p.pos # "absent") THEN <<"loc">> ELSE <<>>

(* ------------------------------- options -------------------------------- *)
Types == {[name |-> n, desc |-> d] : n \in Optional, d \in Optional} \cup {[name |-> "none", desc |-> "none"]}
Options == [desc : Field, type : Types, decls : 0..2, example : Optional, default : {"absent", "given", "same"}]
Unknown == [desc |-> "unknown", type |-> [name |-> "none", desc |-> "none"], decls |-> 0, example |-> "absent", default |-> "absent"]
Some == {Unknown} \cup {o \in Options : o.desc = "given" /\ o.example = "given" /\ o.default = "given" /\ o.decls # 0}
Knows(o) == o # Unknown
OptionType(o) == When(o.type.name = "given", <<"type">>) \o When(o.type.desc = "given", <<"typeDesc">>)
OptionHover(o) == OptionType(o) \o When(Has(o.desc), <<"desc">>)
\* the items offered for it
Items(o) == LET one(v) == [value |-> v, detail |-> OptionType(o), doc |-> When(Has(o.desc), <<"desc">>)]
                ex == When(o.example = "given", <<one("example")>>)
                df == When(o.default = "given" \/ (o.default = "same" /\ o.example = "absent"), <<one("default")>>)
            IN  IF ex \o df = <<>> THEN <<one("none")>> ELSE ex \o df

(* ---------------------------- asking workers ----------------------------- *)
VARIABLES known,      \* what each worker knows, in the order they are asked
          asked, hover, defs, items
vars == <<known, asked, hover, defs, items>>
None == [by |-> 0, show |-> <<>>]
Init == /\ known \in (IF Kind = "package" THEN {<<p>> : p \in Packages \cup {Nobody}} ELSE (Some \X Options) \cup (Options \X Some) \cup (Some \X Some))
        /\ asked = 0 /\ hover = None /\ defs = <<>> /\ items = <<>>
Ask == /\ asked < Len(known)
       /\ LET w == asked + 1
              k == known[w]
          IN  /\ asked' = w
              /\ hover' = IF hover # None THEN hover
                          ELSE IF Kind = "package" THEN [by |-> w, show |-> PackageHover(k)]
                          ELSE IF Knows(k) THEN [by |-> w, show |-> OptionHover(k)]
                          ELSE IF Omit = "askOn" THEN [by |-> w, show |-> <<>>] ELSE None
              /\ defs' = IF Kind = "package" THEN [i \in 1..Len(PackageDefinition(k)) |-> [by |-> w, at |-> PackageDefinition(k)[i]]]
                         ELSE IF Omit = "declareOnce" /\ defs # <<>> THEN defs
                         ELSE defs \o [i \in 1..k.decls |-> [by |-> w, at |-> i]]
              /\ items' = IF Kind = "option" /\ Knows(k) THEN items \o [i \in 1..Len(Items(k)) |-> [by |-> w, item |-> Items(k)[i]]] ELSE items
       /\ UNCHANGED known
Next == Ask
Done == asked = Len(known)

Range(s) == {s[i] : i \in 1..Len(s)}
\* everything known is shown, and nothing else
AllShown == (Done /\ Kind = "package") =>
  /\ \A f \in {"name", "home", "desc", "long"} : (known[1][f] = "given") <=> (f \in Range(hover.show))
  /\ (known[1].value.doc = "given") <=> ("doc" \in Range(hover.show))
  /\ Cardinality({"arg1", "arg2"} \cap Range(hover.show)) = known[1].value.args
  /\ (known[1].loc = "given" => defs # <<>>)
FirstKnows == (Done /\ Kind = "option") =>
  IF \E w \in 1..Len(known) : Knows(known[w])
  THEN /\ Knows(known[hover.by]) /\ \A w \in 1..(hover.by - 1) : ~Knows(known[w])
       /\ hover.show = OptionHover(known[hover.by])
  ELSE hover = None
Declared == (Done /\ Kind = "option") => Len(defs) = LET n[w \in 0..Len(known)] == IF w = 0 THEN 0 ELSE n[w - 1] + known[w].decls IN n[Len(known)]
Offered == (Done /\ Kind = "option") => \A w \in 1..Len(known) : Knows(known[w]) <=> \E i \in 1..Len(items) : items[i].by = w
Emit == ~Done \/ PrintT("@@" \o ToJson([known |-> known, hover |-> hover, defs |-> defs, items |-> items,
                                        hint |-> IF Kind = "package" THEN PackageHint(known[1]) ELSE <<>>,
                                        resolve |-> IF Kind = "package" THEN PackageResolve(known[1]) ELSE <<>>]))
=============================================================================
