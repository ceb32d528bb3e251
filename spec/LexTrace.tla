------------------------------ MODULE LexTrace ------------------------------
(* Follows token streams recorded from the implementation with the reader of   *)
(* XmqLex: each recorded token must be the next one the machine emits, at the  *)
(* same place, and the recorded verdict must be the one the machine ends in.   *)
(* Case: [s: bytes, ok, err, line, col, sl, sc, toks: <<type, bytes, line, col>>] *)
EXTENDS XmqLex, Detect, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, m, j, pos, bad     \* case, machine, tokens matched so far, line and column of m.i, mismatch
vars == <<k, m, j, pos, bad>>

Init == k \in 1..Len(Cases) /\ m = LexStart(Cases[k].s) /\ j = 0 /\ pos = <<1, 1, 1>> /\ bad = ""

PosFrom(s, i) == LineCol(s, pos[1], i, pos[2], pos[3])

TokenMatches(c, t, r) ==
  LET p == PosFrom(c.s, t.a) IN
  r[1] = t.t /\ r[2] = SubSeq(c.s, t.a, t.b - 1) /\ r[3] = p[1] /\ r[4] = p[2]

Report(kind) == PrintT(ToString(<<"MISMATCH", k, kind, m.pc, m.i, j>>))

Step ==
  /\ bad = "" /\ ~LexFinal(m)
  /\ LET c == Cases[k]  x == LexStep(c.s, m)  e == x.emit  n == Len(e) IN
     /\ Assert(Progress(m, x), <<"no progress", c.s, m>>)
     /\ k' = k /\ m' = x
     /\ pos' = IF x.pc = "error" THEN pos ELSE <<x.i>> \o PosFrom(c.s, x.i)
     /\ IF ~c.ok \/ x.pc = "error" THEN j' = j /\ bad' = ""
        ELSE IF j + n <= Len(c.toks) /\ \A q \in 1..n : TokenMatches(c, e[q], c.toks[j+q])
        THEN j' = j + n /\ bad' = ""
        ELSE j' = j /\ bad' = "token" /\ Report("token")

Verdict ==
  /\ bad = "" /\ LexFinal(m)
  /\ LET c == Cases[k]  p == PosOf(c.s, m.at)  q == PosOf(c.s, m.susp)
         warn == m.err = ErrInvalidChar /\ m.susp > 0
         good == IF DetectType(c.s) # "xmq" THEN ~c.ok /\ c.err = 3
                 ELSE IF m.pc = "done" THEN c.ok /\ j = Len(c.toks)
                 ELSE /\ ~c.ok /\ c.err = m.err /\ <<c.line, c.col>> = p
                      /\ IF warn THEN <<c.sl, c.sc>> = q ELSE <<c.sl, c.sc>> = <<0, 0>>
     IN /\ bad' = IF good THEN "ok" ELSE "verdict"
        /\ IF good THEN PrintT(ToString(<<"DONE", k>>)) ELSE Report("verdict")
  /\ UNCHANGED <<k, m, j, pos>>

Next == Step \/ Verdict
=============================================================================
