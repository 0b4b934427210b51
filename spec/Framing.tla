------------------------------ MODULE Framing ------------------------------
(* How a stream of bytes becomes messages (C04).  The client writes frames into
   a pipe, in pieces, and closes its end sooner or later; the server reads what
   is there.  A frame is header lines, an empty line and a body of as many bytes
   as the last valid Content-Length said.  Messages intended to arrive are those
   of whole well-formed frames up to an exit notification; TLC checks that the
   reader below delivers exactly these, in order, however reads, writes and
   closing interleave.
   Hup: does the reader stop once the pipe is closed although it holds more?  (The
   server once did.  TLC then finds the lost message.)                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Headers,     \* names of well-formed header blocks
          BadHeaders,  \* of malformed ones: without a valid length
          Bodies,      \* of bodies that are messages
          BadBodies,   \* of bodies that are none
          Quiet,       \* of bodies that are JSON, but no request to be answered
          MaxFrames, MinFrames, Hup,
          Interleave   \* model reading piecewise?  (else the whole stream at once)
VARIABLES frames, fin, ph, stream, wr, rd, closed, st, got
vars == <<frames, fin, ph, stream, wr, rd, closed, st, got>>

Size == 2      \* bytes of a body in this model
Frame(t, h, b) == [t |-> t, h |-> h, b |-> b]
AllFrames == {Frame("msg", h, b) : h \in Headers, b \in Bodies}
        \cup {Frame("quiet", h, b) : h \in Headers, b \in Quiet}
        \cup {Frame("badbody", h, b) : h \in Headers, b \in BadBodies}
        \cup {Frame("badhdr", h, "") : h \in BadHeaders} \cup {Frame("badhdr", h, "line") : h \in BadHeaders}
        \cup {Frame("exit", h, "") : h \in Headers}
(* what the reader sees of frame number k: lines by what they mean, and bytes *)
Line(x, n) == [k |-> x, n |-> n, m |-> 0]
Body(t, k) == [i \in 1 .. Size |-> [k |-> t, n |-> i, m |-> k]]
Items(f, k) ==
  IF f.t = "badhdr" THEN <<Line("badlen", 0), Line("blank", 0)>> \o (IF f.b = "line" THEN <<Line("other", 0)>> ELSE <<>>)
  ELSE <<Line("other", 0), Line("len", Size), Line("blank", 0)>> \o Body(f.t, k)
RECURSIVE Cat(_, _)
Cat(fs, k) == IF k > Len(fs) THEN <<>> ELSE Items(fs[k], k) \o Cat(fs, k + 1)
(* the last frame may be cut short *)
Cut(s, c) == IF c = "whole" \/ s = <<>> THEN s
             ELSE IF c = "body" THEN SubSeq(s, 1, Len(s) - 1)
             ELSE SubSeq(s, 1, Len(s) - Size - 1)
Cuts(fs) == IF fs # <<>> /\ fs[Len(fs)].t \in {"msg", "exit"} THEN {"whole", "body", "header"} ELSE {"whole"}
RECURSIVE Intended(_, _, _)
Intended(fs, c, k) ==
  IF k > Len(fs) \/ (k = Len(fs) /\ c # "whole") THEN <<>>
  ELSE IF fs[k].t = "exit" THEN <<"exit">>
  ELSE (IF fs[k].t = "msg" THEN <<ToString(k)>> ELSE <<>>) \o Intended(fs, c, k + 1)

Start == [at |-> "headers", len |-> 0, have |-> 0, t |-> "none", m |-> 0]
Init == /\ frames = <<>> /\ fin = "whole" /\ ph = "gen" /\ stream = <<>> /\ wr = 0 /\ rd = 0 /\ closed = FALSE /\ st = Start /\ got = <<>>
Generate == /\ ph = "gen" /\ Len(frames) < MaxFrames /\ \E f \in AllFrames : frames' = Append(frames, f)
            /\ UNCHANGED <<fin, ph, stream, wr, rd, closed, st, got>>
Ready == /\ ph = "gen" /\ Len(frames) >= MinFrames /\ ph' = "run"
         /\ \E c \in Cuts(frames) : fin' = c /\ stream' = Cut(Cat(frames, 1), c)
         /\ UNCHANGED <<frames, wr, rd, closed, st, got>>
(* the client *)
Write == /\ ph = "run" /\ ~closed /\ wr < Len(stream)
         /\ wr' \in (IF Interleave THEN (wr + 1) .. Len(stream) ELSE {Len(stream)})
         /\ UNCHANGED <<frames, fin, ph, stream, rd, closed, st, got>>
CloseEnd == /\ ph = "run" /\ ~closed /\ wr = Len(stream) /\ closed' = TRUE /\ UNCHANGED <<frames, fin, ph, stream, wr, rd, st, got>>
(* the server *)
Consume(x, s) ==
  IF s.at = "headers" THEN
    CASE x.k = "len" -> [s EXCEPT !.len = x.n]
      [] x.k = "badlen" -> [s EXCEPT !.len = 0]
      [] x.k = "blank" -> IF s.len = 0 THEN Start ELSE [s EXCEPT !.at = "body", !.have = 0]
      [] OTHER -> s
  ELSE IF s.have + 1 < s.len THEN [s EXCEPT !.have = @ + 1, !.t = x.k, !.m = x.m]
  ELSE [Start EXCEPT !.at = "deliver", !.t = x.k, !.m = x.m]
Read == /\ ph = "run" /\ st.at \in {"headers", "body"} /\ rd < wr /\ ~(Hup /\ closed)
        /\ rd' = rd + 1 /\ st' = Consume(stream[rd + 1], st)
        /\ UNCHANGED <<frames, fin, ph, stream, wr, closed, got>>
Deliver == /\ ph = "run" /\ st.at = "deliver"
           /\ got' = (IF st.t = "msg" THEN Append(got, ToString(st.m)) ELSE IF st.t = "exit" THEN Append(got, "exit") ELSE got)
           /\ st' = (IF st.t = "exit" THEN [Start EXCEPT !.at = "over"] ELSE Start)
           /\ UNCHANGED <<frames, fin, ph, stream, wr, rd, closed>>
Eof == /\ ph = "run" /\ closed /\ st.at \in {"headers", "body"} /\ (rd = wr \/ Hup) /\ st' = [Start EXCEPT !.at = "over"]
       /\ UNCHANGED <<frames, fin, ph, stream, wr, rd, closed, got>>
Next == Generate \/ Ready \/ Write \/ CloseEnd \/ Read \/ Deliver \/ Eof

Want == Intended(frames, fin, 1)
Prefix == ph = "run" => Len(got) <= Len(Want) /\ got = SubSeq(Want, 1, Len(got))
Whole == st.at = "over" => got = Want
Emit == (ph = "run" /\ wr = 0 /\ ~closed) => PrintT("@@" \o ToJson([frames |-> frames, cut |-> fin, want |-> Want]))
=============================================================================
