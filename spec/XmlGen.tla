------------------------------- MODULE XmlGen -------------------------------
(* Enumerates xml texts of up to max chunks, with the documents they describe, *)
(* with the whitespace kept or trimmed, for replay against the implementation. *)
EXTENDS XmlRead, Detect
CONSTANT Sweeps   \* sequence of [pre, chunks, max, post, trim, all]: all also emits the malformed texts
VARIABLES w, s, n, t

Texts == {s \o p : p \in Sweeps[w].post}
Emit(str) ==
  LET x == XmlParse(str) IN
  IF DetectType(str) # "xml" \/ x.unspec \/ (~x.ok /\ ~Sweeps[w].all) THEN TRUE
  ELSE PrintT(ToString(<<"CASE", str, t, IF x.ok THEN 1 ELSE 0, IF t THEN Trimmed(x.ev, 1) ELSE x.ev>>))
Init == /\ w \in 1..Len(Sweeps) /\ s \in Sweeps[w].pre /\ n = 0 /\ t \in Sweeps[w].trim
        /\ \A str \in Texts : Emit(str)
Next == /\ n < Sweeps[w].max
        /\ \E c \in Sweeps[w].chunks : s' = s \o c
        /\ n' = n + 1 /\ UNCHANGED <<w, t>>
        /\ \A p \in Sweeps[w].post : Emit(s' \o p)
\* Trimming what is trimmed changes nothing.
Stable == LET x == XmlParse(s) IN x.ok => Trimmed(Trimmed(x.ev, 1), 1) = Trimmed(x.ev, 1)
=============================================================================
