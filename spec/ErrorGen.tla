------------------------------ MODULE ErrorGen ------------------------------
(* Enumerates texts of up to max chunks that are rejected, with what is said about them. *)
EXTENDS XmqError, Detect
CONSTANT Sweeps   \* sequence of [pre, chunks, max]
VARIABLES w, s, n
Src == <<83, 82, 67>>
Emit(str) ==
  DetectType(str) # "xmq" \/
  LET m == LexRun(str).m IN
  m.pc # "error" \/ PrintT(ToString(<<"CASE", str, m.err, Message(Src, str, m)>>))
Init == w \in 1..Len(Sweeps) /\ s \in Sweeps[w].pre /\ n = 0 /\ Emit(s)
Next == /\ n < Sweeps[w].max
        /\ \E c \in Sweeps[w].chunks : s' = s \o c
        /\ n' = n + 1 /\ w' = w
        /\ Emit(s')
=============================================================================
