------------------------------- MODULE LexGen -------------------------------
(* Enumerates every text made of up to MaxChunks chunks after a prefix, and   *)
(* for each one the behaviour of the xmq reader: the accepted tokens with     *)
(* their positions, or the error with its number and position.  Each text is  *)
(* printed with that expectation, to be replayed against the implementation.  *)
EXTENDS XmqLex, Detect
CONSTANT Sweeps       \* sequence of [pre: set of prefixes, chunks: set of chunks, max: number of chunks]
VARIABLES w, s, n, r    \* sweep, text, chunks so far, verdict of the reader on the text

Expect(str, run) ==
  LET m == run.m  p == PosOf(str, m.at)  sp == PosOf(str, m.susp)
      detected == DetectType(str)
  IN IF detected # "xmq" THEN <<"CASE", str, "notxmq">>
     ELSE IF m.pc = "done"
     THEN <<"CASE", str, "ok",
            [k \in 1..Len(run.toks) |->
               LET t == run.toks[k] q == PosOf(str, t.a) IN <<t.t, t.a, t.b, q[1], q[2]>>]>>
     ELSE <<"CASE", str, "err", m.err, p[1], p[2],
            IF m.err = ErrInvalidChar /\ m.susp > 0 THEN sp ELSE <<0, 0>>>>

Init == /\ w \in 1..Len(Sweeps) /\ s \in Sweeps[w].pre /\ n = 0 /\ r = LexRun(s)
Next == /\ n < Sweeps[w].max
        /\ \E c \in Sweeps[w].chunks : s' = s \o c
        /\ n' = n + 1 /\ w' = w
        /\ r' = LexRun(s')
        /\ PrintT(ToString(Expect(s', r')))

\* The reader terminates in a verdict and an accepted text is exactly tiled by its tokens.
Verdict == r.m.pc \in {"done", "error"}
Tiled   == r.m.pc = "done" => Tiles(r.toks, 1, 1, Len(s)+1)
Located == r.m.pc = "error" => r.m.at \in 1..Len(s)+1
=============================================================================
