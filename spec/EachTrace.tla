----------------------------- MODULE EachTrace -----------------------------
(* Recorded runs of commands for each node of a path.  Record: doc, the      *)
(* document; before, commands that change it; p, paths; words, the command;   *)
(* out, what the runs wrote.                                                   *)
EXTENDS Each, IOUtils, Json
VARIABLES k, todo

Trace == ndJsonDeserialize(IOEnv.TRACE)
RECURSIVE After(_, _, _)
After(ev, cs, q) == IF q > Len(cs) THEN [ev |-> ev, def |-> TRUE]
                    ELSE LET r == Apply(ev, cs[q]) IN IF ~r.def \/ ~r.ok THEN [ev |-> ev, def |-> FALSE] ELSE After(r.ev, cs, q+1)
Right(r) ==
  LET d == After(r.doc, r.before, 1)  S == NodesOf(d.ev, r.p) IN
  IF ~d.def \/ (\E j \in 1..Len(r.p) : ~Decided(d.ev, r.p[j])) \/ ~Defined(d.ev, S, r.words) THEN TRUE
  ELSE Output(d.ev, S, r.words) = r.out

Init == k \in 1..Len(Trace) /\ todo = TRUE
Next == /\ todo /\ todo' = FALSE /\ UNCHANGED k
        /\ IF Right(Trace[k]) THEN PrintT(ToString(<<"DONE", k>>)) ELSE PrintT(ToString(<<"MISMATCH", k>>))
=============================================================================
