------------------------------- MODULE JsonGen -------------------------------
(* Enumerates json texts of up to max chunks, each with the document that it is  *)
(* or that it is not json, for replay against the implementation.                *)
EXTENDS JsonText
CONSTANT Sweeps   \* sequence of [pre, chunks, max, post, all]: all also emits the malformed texts
VARIABLES w, s, n

Emit(str) ==
  LET x == JsonParse(str)  d == DocOf(x.ev) IN
  IF x.un \/ (~x.ok /\ ~Sweeps[w].all) THEN TRUE
  ELSE IF ~x.ok THEN PrintT(ToString(<<"CASE", str, 0>>))
  ELSE IF d.un \/ ~UniqueKeys(x.ev) THEN TRUE
  ELSE PrintT(ToString(<<"CASE", str, 1, d.ev>>))
Init == /\ w \in 1..Len(Sweeps) /\ s \in Sweeps[w].pre /\ n = 0
        /\ \A p \in Sweeps[w].post : Emit(s \o p)
Next == /\ n < Sweeps[w].max
        /\ \E c \in Sweeps[w].chunks : s' = s \o c
        /\ n' = n + 1 /\ UNCHANGED w
        /\ \A p \in Sweeps[w].post : Emit(s' \o p)
\* The document is made of elements that nest.
Nested == \A p \in Sweeps[w].post : LET x == JsonParse(s \o p) IN x.ok => Balanced(DocOf(x.ev).ev, 1, 0)
=============================================================================
