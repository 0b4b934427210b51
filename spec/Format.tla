------------------------------- MODULE Format -------------------------------
(* An external formatter and the server, connected by three pipes.           *)
(* The command is any sequence of steps:                                     *)
(*   "r" read one unit (a pipe holds one), "R" read until the end,           *)
(*   "w" write a unit of its own, "t" write all that was read so far,        *)
(*   "e" write a unit to stderr, "c" close stdin, "o" close stdout,          *)
(*   "0"/"1" exit with that status, "k" die by a signal.                     *)
(* The text has Text units.  The server feeds the text and collects the      *)
(* output, then waits for the command.                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Progs,        \* the commands
          Texts,        \* numbers of units
          Mode          \* "both": feeds and collects at once; "feedFirst": feeds all of the text first;
                        \* "noErr": does not collect stderr
VARIABLES prog, n,      \* what is run
          pc, read, todo, \* the command: step, units read, what is left of the write under way
          stdin, stdout,  \* its ends are open
          alive, status,
          pin, pout, perr, \* what is in the pipes
          fed, feeding, collecting, out,  \* the server
          answer
vars == <<prog, n, pc, read, todo, stdin, stdout, alive, status, pin, pout, perr, fed, feeding, collecting, out, answer>>

NoAnswer == [kind |-> "none"]
Init == /\ prog \in Progs /\ n \in Texts
        /\ pc = 1 /\ read = <<>> /\ todo = <<>> /\ stdin = TRUE /\ stdout = TRUE
        /\ alive = TRUE /\ status = "none"
        /\ pin = <<>> /\ pout = <<>> /\ perr = <<>>
        /\ fed = 0 /\ feeding = (n > 0) /\ collecting = TRUE /\ out = <<>>
        /\ answer = NoAnswer

Unit(i) == <<"text", i>>
Step == prog[pc]
(* --------------------------- the command -------------------------------- *)
Command == <<prog, n>>
Server == <<fed, feeding, collecting, out, answer>>
Exit(s) == alive' = FALSE /\ status' = s /\ UNCHANGED <<pc, read, todo, stdin, stdout>>
ReadsOne == alive /\ Step \in {"r", "R"} /\ todo = <<>>
ReadUnit == /\ ReadsOne /\ stdin /\ pin # <<>>
            /\ read' = Append(read, pin[1]) /\ pin' = Tail(pin)
            /\ pc' = IF Step = "r" THEN pc + 1 ELSE pc
            /\ UNCHANGED <<Command, Server, todo, stdin, stdout, alive, status, pout, perr>>
ReadEnd == /\ ReadsOne /\ (~stdin \/ (pin = <<>> /\ ~feeding))
           /\ pc' = pc + 1
           /\ UNCHANGED <<Command, Server, read, todo, stdin, stdout, alive, status, pin, pout, perr>>
StartWrite == /\ alive /\ Step \in {"w", "t", "e"} /\ todo = <<>>
              /\ LET what == CASE Step = "w" -> <<<<"own", pc>>>>
                               [] Step = "e" -> <<<<"err", pc>>>>
                               [] Step = "t" -> read
                 IN  IF what = <<>> THEN pc' = pc + 1 /\ UNCHANGED todo
                                    ELSE todo' = what /\ UNCHANGED pc
              /\ UNCHANGED <<Command, Server, read, stdin, stdout, alive, status, pin, pout, perr>>
WriteOut == /\ alive /\ Step \in {"w", "t"} /\ todo # <<>> /\ collecting /\ pout = <<>>
            /\ pout' = <<todo[1]>> /\ todo' = Tail(todo)
            /\ pc' = IF Len(todo) = 1 THEN pc + 1 ELSE pc
            /\ UNCHANGED <<Command, Server, read, stdin, stdout, alive, status, pin, perr>>
WriteErr == /\ alive /\ Step = "e" /\ todo # <<>> /\ collecting /\ perr = <<>>
            /\ perr' = <<todo[1]>> /\ todo' = <<>> /\ pc' = pc + 1
            /\ UNCHANGED <<Command, Server, read, stdin, stdout, alive, status, pin, pout>>
CloseIn == /\ alive /\ Step = "c" /\ stdin' = FALSE /\ pc' = pc + 1
           /\ UNCHANGED <<Command, Server, read, todo, stdout, alive, status, pin, pout, perr>>
CloseOut == /\ alive /\ Step = "o" /\ stdout' = FALSE /\ pc' = pc + 1
            /\ UNCHANGED <<Command, Server, read, todo, stdin, alive, status, pin, pout, perr>>
Ends == /\ alive /\ Step \in {"0", "1", "k"} /\ Exit(Step)
        /\ UNCHANGED <<Command, Server, pin, pout, perr>>
CommandStep == ReadUnit \/ ReadEnd \/ StartWrite \/ WriteOut \/ WriteErr \/ CloseIn \/ CloseOut \/ Ends

(* ---------------------------- the server -------------------------------- *)
CommandVars == <<prog, n, pc, read, todo, stdin, stdout, alive, status>>
Reads == alive /\ stdin
Feed == /\ feeding /\ Reads /\ pin = <<>>
        /\ pin' = <<Unit(fed + 1)>> /\ fed' = fed + 1 /\ feeding' = (fed + 1 < n)
        /\ UNCHANGED <<CommandVars, pout, perr, collecting, out, answer>>
\* nobody reads any more
FeedFails == /\ feeding /\ ~Reads /\ feeding' = FALSE
             /\ UNCHANGED <<CommandVars, pin, pout, perr, fed, collecting, out, answer>>
MayCollect == collecting /\ (Mode = "feedFirst" => ~feeding)
Collect == /\ MayCollect /\ pout # <<>>
           /\ out' = out \o pout /\ pout' = <<>>
           /\ UNCHANGED <<CommandVars, pin, perr, fed, feeding, collecting, answer>>
CollectErr == /\ MayCollect /\ Mode # "noErr" /\ perr # <<>> /\ perr' = <<>>
              /\ UNCHANGED <<CommandVars, pin, pout, fed, feeding, collecting, out, answer>>
\* the end of the output: all pipes are closed
CollectEnd == /\ MayCollect /\ pout = <<>> /\ ~(alive /\ stdout)
              /\ collecting' = FALSE /\ feeding' = FALSE
              /\ UNCHANGED <<CommandVars, pin, pout, perr, fed, out, answer>>
\* the reply: an error, nothing to do, or the output instead of the whole text
Answers == /\ ~collecting /\ ~alive /\ answer = NoAnswer
           /\ answer' = IF status # "0" THEN [kind |-> "error"]
                        ELSE IF out = [i \in 1..n |-> Unit(i)] THEN [kind |-> "same"]
                        ELSE [kind |-> "edit", text |-> out]
           /\ UNCHANGED <<CommandVars, pin, pout, perr, fed, feeding, collecting, out>>
ServerStep == Feed \/ FeedFails \/ Collect \/ CollectErr \/ CollectEnd \/ Answers
Next == CommandStep \/ ServerStep
Spec == Init /\ [][Next]_vars /\ WF_vars(CommandStep) /\ WF_vars(ServerStep)

(* ------------------- what the command means by itself -------------------- *)
(* Run without any pipes: what it has read and written at each step.         *)
RECURSIVE Meant(_, _, _, _)
Meant(k, got, wrote, open) ==
  LET s == prog[k] IN
  CASE s \in {"0", "1", "k"} -> [out |-> wrote, status |-> s]
    [] s = "r" -> Meant(k + 1, IF open /\ got < n THEN got + 1 ELSE got, wrote, open)
    [] s = "R" -> Meant(k + 1, IF open THEN n ELSE got, wrote, open)
    [] s = "w" -> Meant(k + 1, got, Append(wrote, <<"own", k>>), open)
    [] s = "t" -> Meant(k + 1, got, wrote \o [i \in 1..got |-> Unit(i)], open)
    [] s = "c" -> Meant(k + 1, got, wrote, FALSE)
    [] OTHER -> Meant(k + 1, got, wrote, open)
Meaning == Meant(1, 0, <<>>, TRUE)
\* after the command has closed its stdout nobody feeds it any more: what it reads then is not said
Faithful == answer # NoAnswer =>
  /\ (answer.kind = "error") = (Meaning.status # "0")
  /\ answer.kind = "edit" => answer.text = Meaning.out
  /\ answer.kind = "same" => Meaning.out = [i \in 1..n |-> Unit(i)]
Answered == <>(answer # NoAnswer)
Emit == answer = NoAnswer \/ PrintT("@@" \o ToJson([prog |-> prog, n |-> n, answer |-> answer]))

(* ------------------------------ commands --------------------------------- *)
\* all commands of up to k steps followed by an end
Commands(steps, k) == {p \o <<x>> : p \in UNION {[1..l -> steps] : l \in 0..k}, x \in {"0", "1", "k"}}
\* nothing is written after closing the output, nothing is closed twice
Sane(p) == /\ \A i, j \in 1..Len(p) : (i < j /\ p[i] = "o") => p[j] \notin {"w", "t", "e", "o", "r", "R"}
           /\ \A i, j \in 1..Len(p) : (i < j /\ p[i] = "c") => p[j] # "c"
=============================================================================
