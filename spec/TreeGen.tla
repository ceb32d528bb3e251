------------------------------ MODULE TreeGen ------------------------------
(* Enumerates every text of up to max chunks and prints the document it       *)
(* describes, or the error, for replay against the implementation.            *)
EXTENDS XmqTree, Detect
CONSTANT Sweeps   \* sequence of [pre, chunks, max, roots, merges]
VARIABLES w, s, n, root, merge, r

Init == /\ w \in 1..Len(Sweeps) /\ s \in Sweeps[w].pre /\ n = 0
        /\ root \in Sweeps[w].roots /\ merge \in Sweeps[w].merges
        /\ r = ParseWith(s, root, merge)
Emit(str, x) == PrintT(ToString(
  IF x.ok THEN <<"CASE", str, root, merge, 1, x.ev>>
  ELSE LET p == PosOf(str, x.at) q == PosOf(str, x.susp) IN
       <<"CASE", str, root, merge, 0, x.err, p[1], p[2], IF x.err = ErrInvalidChar /\ x.susp > 0 THEN q ELSE <<0, 0>>>>))
Next == /\ n < Sweeps[w].max
        /\ \E c \in Sweeps[w].chunks : s' = s \o c
        /\ n' = n + 1 /\ UNCHANGED <<w, root, merge>>
        /\ r' = ParseWith(s', root, merge)
        /\ IF DetectType(s') = "xmq" /\ ~r'.unspec THEN Emit(s', r') ELSE TRUE

Nested == r.ok /\ ~r.unspec => Balanced(r.ev, 1, 0)
=============================================================================
